// Interpreter for spec/Bind.tla: points, lines and polylines that come from or go to other libraries.
// Model coordinates are halves.
#define HOMOG2D_USE_BOOSTGEOM
#define HOMOG2D_USE_OPENCV
using VhFT = FT;
using VhGT = GT;
#undef FT
#undef GT
#include <boost/geometry.hpp>
#define FT VhFT
#define GT VhGT
#include "vh.hpp"
using namespace h2d;
using namespace vh;
namespace bg = boost::geometry;
using P = Point2d_<FT>;
using L = Line2d_<FT>;
static P pts[4];
static CPolyline_<FT> cp;
static OPolyline_<FT> op_;
template<typename T> using BP = bg::model::point<T,2,bg::cs::cartesian>;
template<typename T> using BX = bg::model::d2::point_xy<T>;
static double h( Op& op ) { return op.i() * g_scale / 2.; }
static std::string xy( double x, double y ) { return "[" + js(fx(x)) + "," + js(fx(y)) + "]"; }
template<typename BPT,bool CW,bool CL,typename PL> void import( const std::vector<P>& v, PL& out ) {
	bg::model::polygon<BPT,CW,CL> pol;
	for( const auto& p: v ) pol.outer().push_back( BPT( p.getX(), p.getY() ) );
	PL n( pol );
	out = n;
}
template<typename PL> void imp( long v, const std::vector<P>& pp, PL& out ) {
	switch( v % 8 ) {
		case 0: import<BX<double>,true,true>( pp, out ); break;
		case 1: import<BX<double>,true,false>( pp, out ); break;
		case 2: import<BP<double>,false,true>( pp, out ); break;
		case 3: import<BP<float>,true,true>( pp, out ); break;
		case 4: import<BX<float>,false,false>( pp, out ); break;
		case 5: import<BP<double>,true,false>( pp, out ); break;
		case 6: import<BX<long double>,true,true>( pp, out ); break;
		default: import<BP<float>,false,false>( pp, out );
	}
}
template<typename PL> std::string facts( const PL& c ) {
	std::string o = "[" + js( fl( c.length() ) ) + "," + js( c.isSimple() ? 1 : 0 ) + "," + js( c.size() ) + "," + js( c.nbSegs() );
	if( c.size() > 2 && c.isSimple() && c.isClosed() ) o += "," + js( fa( c.area() ) ) + "," + js( c.isConvex() ? 1 : 0 );
	return o + "]";
}
template<typename PL> void observe( const PL& c, Ev& ev ) {
	ev.add( "p", jl( c.getPts() ) );
	ev.add( "cl", js( c.isClosed() ) );
	PL n( c.getPts() );        // one built with those values
	ev.add( "v", facts( c ) );
	ev.add( "n", facts( n ) );
	ev.add( "eq", js( c == n && n == c && !(c != n) ) );
	ev.add( "v2", facts( c ) );
}
template<typename T> void outs( const std::vector<P>& v, Ev& ev ) {
	auto o = getPts<T>( v );
	std::string s;
	for( const auto& e: o ) { P p( e ); s += (s.empty()?"":",") + js( p ); }
	ev.add( "o", "[" + s + "]" );
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		for( auto& p: pts ) p = P();
		cp = CPolyline_<FT>(); op_ = OPolyline_<FT>();
		return;
	}
	guarded( ev, [&]{
		if( n == "pin" ) {
			P& p = pts[op.i()];
			auto v = op.i();
			double x = h(op), y = h(op);
			double w = op.i();
			switch( v ) {
				case 0: p = cv::Point2d( x, y ); break;
				case 1: p = cv::Point2f( x, y ); break;
				case 2: if( std::floor(x) != x || std::floor(y) != y ) throw Skip(); p = cv::Point2i( x, y ); break;
				case 3: { P q( cv::Point2d( x, y ) ); p = q; } break;
				case 4: p = BP<double>( x, y ); break;
				case 5: { P q( BP<float>( x, y ) ); p = q; } break;
				case 6: { P q( BX<double>( x, y ) ); p = q; } break;
				case 7: p.set( BP<double>( x, y ) ); break;
				case 8: p.set( BX<float>( x, y ) ); break;
				case 9: p = P( std::vector<double>{ x*w, y*w, w } ); break;
				case 10: p = P( std::array<FT,3>{ (FT)(x*w), (FT)(y*w), (FT)w } ); break;
				case 11: p = P( std::array<GT,3>{ (GT)(x*w), (GT)(y*w), (GT)w } ); break;
				case 13: p.set( x*w, y*w, w ); break;
				case 14: { P q( x*w, y*w, w ); p = q; } break;
				default: if( std::floor(x) != x || std::floor(y) != y ) throw Skip(); p.set( BP<int>( x, y ) );
			}
		}
		else if( n == "pmv" ) {
			P& p = pts[op.i()];
			auto x = h(op), y = h(op);
			p.translate( x, y );
		}
		else if( n == "pout" ) {
			const P& p = pts[op.i()];
			auto v = op.i();
			auto cvp = [&]( auto q ){ ev.add( "o", xy( q.x, q.y ) ); };
			auto bgp = [&]( auto q ){ ev.add( "o", xy( bg::get<0>(q), bg::get<1>(q) ) ); };
			switch( v ) {
				case 0: cvp( p.getCvPtd() ); break;
				case 1: cvp( getCvPtd( p ) ); break;
				case 2: cvp( p.getCvPtf() ); break;
				case 3: cvp( getCvPtf( p ) ); break;
				case 4: cvp( p.getCvPti() ); break;
				case 5: cvp( getCvPti( p ) ); break;
				case 6: cvp( p.template getPt<cv::Point2d>() ); break;
				case 7: cvp( getPt<cv::Point2f>( p ) ); break;
				case 8: bgp( p.template getPt<BP<double>>() ); break;
				case 9: bgp( getPt<BX<float>>( p ) ); break;
				case 10: bgp( getPt<BP<float>>( p ) ); break;
				case 11: bgp( p.template getPt<BX<double>>() ); break;
				case 12: { auto q = getPt<Point2d_<GT>>( p ); ev.add( "o", xy( q.getX(), q.getY() ) ); } break;
				case 13: { auto q = getPt<std::pair<double,double>>( p ); ev.add( "o", xy( q.first, q.second ) ); } break;
				default: { auto a = p.get(); ev.add( "o", xy( a[0]/a[2], a[1]/a[2] ) ); }
			}
		}
		else if( n == "pts" ) {        // a vector of points
			auto v = op.i();
			std::vector<P> w;
			while( op.more() ) w.push_back( pts[op.i()] );
			switch( v ) {
				case 0: outs<cv::Point2d>( w, ev ); break;
				case 1: outs<cv::Point2f>( w, ev ); break;
				case 2: outs<BP<double>>( w, ev ); break;
				default: outs<BX<float>>( w, ev );
			}
		}
		else if( n == "peq" ) {
			auto s = op.i(), t = op.i();
			ev.add( "q", js( pts[s] == pts[t] ) );
			ev.add( "d", js( fl( pts[s].distTo( pts[t] ) ) ) );
		}
		else if( n == "lin" ) {
			auto v = op.i();
			double x = h(op), y = h(op), z = h(op), w = h(op);
			if( v == 2 && ( std::floor(x) != x || std::floor(y) != y ) ) throw Skip();
			auto one = [&]( const L& l ){
				auto a = l.get();
				ev.add( "l", "[" + js(fxs(a[0],1000)) + "," + js(fxs(a[1],1000)) + "," + js(fxs((long double)a[2]/g_scale,1000)) + "]" );
			};
			switch( v ) {
				case 0: one( L( cv::Point2d(x,y) ) ); break;
				case 1: one( L( cv::Point2f(x,y) ) ); break;
				case 2: one( L( cv::Point2i(x,y) ) ); break;
				case 3: one( L( cv::Point2d(x,y), cv::Point2d(z,w) ) ); break;
				case 4: one( L( cv::Point2f(x,y), cv::Point2d(z,w) ) ); break;
				case 5: { L l; l = cv::Point2d(x,y); one( l ); } break;
				case 6: one( L( P(cv::Point2f(x,y)), P(BX<double>(z,w)) ) ); break;
				default: one( P(BP<double>(x,y)) * P(cv::Point2d(z,w)) );
			}
		}
		else if( n == "lar" ) {        // a line from three values
			auto v = op.i();
			double a = op.i(), b = op.i(), c = op.c();
			auto one = [&]( const L& l ){
				auto a = l.get();
				ev.add( "l", "[" + js(fxs(a[0],1000)) + "," + js(fxs(a[1],1000)) + "," + js(fxs((long double)a[2]/g_scale,1000)) + "]" );
			};
			switch( v ) {
				case 0: one( L( std::array<FT,3>{ (FT)a, (FT)b, (FT)c } ) ); break;
				case 1: one( L( std::array<GT,3>{ (GT)a, (GT)b, (GT)c } ) ); break;
				case 2: one( L( std::vector<double>{ a, b, c } ) ); break;
				case 3: { L l; l.set( a, b, c ); one( l ); } break;
				default: one( L( a, b, c ) );
			}
		}
		else if( n == "ply" ) {
			auto s = op.i(), v = op.i(), k = op.i();
			std::vector<P> w;
			for( long i=0; i<k; i++ ) { auto x = h(op), y = h(op); w.push_back( P(x,y) ); }
			if( s == 1 ) imp( v, w, cp ); else imp( v, w, op_ );
		}
		else if( n == "plm" ) {
			auto s = op.i(); auto x = h(op), y = h(op);
			if( s == 1 ) cp.translate( x, y ); else op_.translate( x, y );
		}
		else if( n == "plr" ) {
			auto s = op.i();
			if( s == 1 ) cp.rotate( Rotate::CCW ); else op_.rotate( Rotate::CCW );
		}
		else if( n == "plo" ) { if( op.i() == 1 ) observe( cp, ev ); else observe( op_, ev ); }
		else if( n == "frm" ) {
			auto r = op.i(), c = op.i();
			cv::Mat m( r, c, CV_8U );
			auto f = getFRect<FT>( m );
			auto pp = f.getPts();
			ev.add( "b", "[" + js(fr(pp.first.getX())) + "," + js(fr(pp.first.getY())) + "," + js(fr(pp.second.getX())) + "," + js(fr(pp.second.getY())) + "]" );
		}
		else _exit(5);
	} );
}
int main( int c, char** v ) { return run( c, v, step ); }
