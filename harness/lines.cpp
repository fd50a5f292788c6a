// Interpreter for spec/Lines.tla: points, lines, segments, oriented segments.
#include "vh.hpp"
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using L = Line2d_<FT>;
using S = Segment_<FT>;
using O = OSegment_<FT>;
using P2 = Point2d_<GT>;
static std::vector<P> p; static std::vector<L> l; static std::vector<S> s; static std::vector<O> o;

static long double angle( long k ) {
	const long double pi = 3.14159265358979323846264338327950288L;
	static const int c[8][2] = { {3,4},{4,3},{-3,4},{-4,3},{3,-4},{4,-3},{-3,-4},{-4,-3} };
	if( k < 4 ) return k*pi/2;
	return std::atan2( (long double)c[k-4][1], (long double)c[k-4][0] );
}
template<typename F> std::string jline( const Line2d_<F>& li ) {
	auto a = li.get();
	return "[" + js(fxs(a[0],10000)) + "," + js(fxs(a[1],10000)) + "," + js(fxs((long double)a[2]/g_scale,1000)) + "]";
}
static const char* sideName( PointSide q ) { return getString( q ); }
template<typename A> bool grab( A f ) { try { f(); return true; } catch( const std::exception& ) { return false; } }
template<typename T,typename U> void angles( Ev& ev, const T& a, const U& b, bool both ) {
	query( ev, "c", [&]{
		auto v = a.getAngle( b );
		ev.add( "v", js( fr(v) ) ); ev.add( "s", js( fr( std::sin((double)v) ) ) );
		ev.add( "c2", js( fr( std::cos((double)getAngle(b,a)) ) ) ); ev.add( "s2", js( fr( std::sin((double)getAngle(b,a)) ) ) );
		ev.add( "k2", js( both ) );
		return js( fr( std::cos((double)v) ) );
	} );
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		p.assign( 5, P() ); l.assign( 5, L() ); const P u( 1*g_scale, 1*g_scale ); s.assign( 5, S( P(), u ) ); o.assign( 5, O( P(), u ) );
		ev.add( "f", js( sizeof(FT) == 4 ) ); return;
	}
	guarded( ev, [&]{
		if( n == "pt" ) {
			P& d = p.at( op.i() );
			auto f = op.i(); FT x = op.c(), y = op.c(); auto wi = op.i(); FT w = wi;
			switch( f ) {
				case 0: d = P( x, y ); break;
				case 1: if( wi % 2 ) d.set( x, y ); else d.set( (GT)x, (double)y ); break;
				case 2: d = P( x, y, w ); break;
				case 3: d.set( x, y, (int)wi ); break;
				case 4: d = P( std::vector<FT>{ x, y, w } ); break;
				case 5: d = P( std::array<FT,3>{ x, y, w } ); break;
				case 6: d = P( std::vector<GT>{ (GT)x, (GT)y, (GT)w } ); break;
				case 7: { P2 q( x, y, w ); d = P( q ); break; }
				default: { P2 q( x, y, w ); P t( q ); P2 u( t ); d = u; }
			}
		}
		else if( n == "pcp" ) { auto i = op.i(), f = op.i(), j = op.i(); if( f == 0 ) p.at(i) = p.at(j); else if( f == 1 ) { P t( p.at(j) ); p.at(i) = t; } else p.at(i).moveTo( p.at(j) ); }
		else if( n == "pll" ) {
			auto i = op.i(), f = op.i(), a = op.i(), b = op.i();
			if( f == 0 ) p.at(i) = P( l.at(a), l.at(b) ); else if( f == 1 ) p.at(i) = l.at(a) * l.at(b);
			else { auto r = l.at(a).intersects( l.at(b) ); if( !r() ) throw std::runtime_error("none"); p.at(i) = r.get(); }
		}
		else if( n == "ptr" ) { auto i = op.i(), f = op.i(); auto x = op.c(), y = op.c(); if( p.at(i).isInf() ) throw Skip(); if( f == 0 ) p.at(i).translate( x, y ); else if( f == 1 ) p.at(i).translate( std::make_pair(x,y) ); else translate( p.at(i), x, y ); }
		else if( n == "pmv" ) { auto i = op.i(), j = op.i(); p.at(i).moveTo( p.at(j) ); }
		else if( n == "pgc" ) { auto i = op.i(), j = op.i(), g = op.i(); auto v = op.c(); p.at(i) = l.at(j).getPoint( g ? GivenCoord::Y : GivenCoord::X, v ); }
		else if( n == "pce" ) { auto i = op.i(), k = op.i(), j = op.i(); if( k ) p.at(i) = o.at(j).getCenter(); else p.at(i) = s.at(j).getCenter(); }
		else if( n == "pen" ) { auto i = op.i(), k = op.i(), j = op.i(), w = op.i(); auto q = k ? o.at(j).getPts() : s.at(j).getPts(); p.at(i) = w ? q.second : q.first; }
		else if( n == "lpp" ) {
			auto i = op.i(), f = op.i(), a = op.i(), b = op.i();
			if( f == 0 ) l.at(i) = L( p.at(a), p.at(b) ); else if( f == 1 ) l.at(i) = p.at(a) * p.at(b);
			else {
				if( p.at(a).isInf() || p.at(b).isInf() ) throw Skip();
				l.at(i) = L( h2d::getX(p.at(a)), h2d::getY(p.at(a)), h2d::getX(p.at(b)), h2d::getY(p.at(b)) );
			}
		}
		else if( n == "lab" ) {
			L& d = l.at( op.i() );
			auto f = op.i(); long ai = op.i(), bi = op.i(), ci = op.i();
			FT a = ai, b = bi, c = ci*g_scale;
			const P& q = p.at( ai%4 < 0 ? ai%4 + 5 : ai%4 + 1 );
			switch( f ) {
				case 0: d = L( a, b, c ); break;
				case 1: d.set( a, b, c ); break;
				case 2: d = L( std::vector<GT>{ (GT)a, (GT)b, (GT)c } ); break;
				case 3: d = L( std::array<FT,3>{ a, b, c } ); break;
				case 4: d = L( LineDir::V, ai*g_scale ); break;
				case 5: d = L( LineDir::H, ai*g_scale ); break;
				case 6: if( q.isInf() ) throw Skip(); d = L( LineDir::V, q ); break;
				case 7: if( q.isInf() ) throw Skip(); d = L( LineDir::H, q ); break;
				case 8: d = L( q ); break;
				case 9: d = L( ai*g_scale, bi*g_scale ); break;
				default: d = L();
			}
		}
		else if( n == "lcp" ) { auto i = op.i(), f = op.i(), j = op.i(); if( f == 0 ) l.at(i) = l.at(j); else { L t( l.at(j) ); l.at(i) = t; } }
		else if( n == "ltr" ) { auto i = op.i(), f = op.i(); auto x = op.c(), y = op.c(); if( f == 0 ) l.at(i).translate( x, y ); else l.at(i).translate( std::make_pair(x,y) ); }
		else if( n == "lpar" ) { auto i = op.i(), j = op.i(), k = op.i(); if( p.at(k).isInf() ) throw Skip(); l.at(i) = l.at(j).getParallelLine( p.at(k) ); }
		else if( n == "lort" ) { auto i = op.i(), j = op.i(), k = op.i(); if( p.at(k).isInf() ) throw Skip(); l.at(i) = l.at(j).getOrthogLine( p.at(k) ); }
		else if( n == "lorc" ) { auto i = op.i(), j = op.i(), g = op.i(); auto v = op.c(); l.at(i) = l.at(j).getOrthogLine( g ? GivenCoord::Y : GivenCoord::X, v ); }
		else if( n == "lrot" ) { auto i = op.i(), j = op.i(), k = op.i(), a = op.i(); if( p.at(k).isInf() ) throw Skip(); l.at(i) = l.at(j).getRotatedLine( p.at(k), angle(a) ); }
		else if( n == "lbi" ) { auto i = op.i(), k = op.i(), j = op.i(); if( k ) l.at(i) = o.at(j).getBisector(); else if( (i+j)%2 ) l.at(i) = s.at(j).getBisector(); else l.at(i) = getBisector( s.at(j) ); }
		else if( n == "lse" ) { auto i = op.i(), k = op.i(), j = op.i(); if( k ) l.at(i) = o.at(j).getLine(); else if( (i+j)%2 ) l.at(i) = s.at(j).getLine(); else l.at(i) = getLine( s.at(j) ); }
		else if( n == "sg" ) {
			auto k = op.i(), i = op.i(), f = op.i(), a = op.i(), b = op.i();
			const P x = p.at(a), y = p.at(b);
			if( x.isInf() || y.isInf() ) throw Skip();
			auto build = [&]( auto& d ) {
				using T = typename std::decay<decltype(d)>::type;
				switch( f ) {
					case 0: d = T( x, y ); break;
					case 1: d.set( x, y ); break;
					case 2: d = T( std::make_pair(x,y) ); break;
					case 3: d.set( std::make_pair(x,y) ); break;
					case 4: d = T( x.getX(), x.getY(), y.getX(), y.getY() ); break;
					case 5: d.set( x.getX(), x.getY(), y.getX(), y.getY() ); break;
					case 6: { Point2d_<long double> u( x ); d = T( u, y ); break; }
					default: { Point2d_<long double> u( y ); d.set( x, u ); }
				}
			};
			if( k ) build( o.at(i) ); else build( s.at(i) );
		}
		else if( n == "scv" ) { auto i = op.i(), j = op.i(); auto f = op.i(); if( f == 0 ) s.at(i) = S( o.at(j) ); else s.at(i) = o.at(j); }
		else if( n == "srv" ) { auto i = op.i(), j = op.i(); o.at(i) = -o.at(j); }
		else if( n == "scp" ) {
			auto k = op.i(), i = op.i(), j = op.i();
			if( k ) { OSegment_<long double> t( o.at(j) ); o.at(i) = t; } else { Segment_<long double> t( s.at(j) ); s.at(i) = S( t ); }
		}
		else if( n == "stl" ) {
			auto k = op.i(), i = op.i(), f = op.i(); auto x = op.c(), y = op.c();
			auto go = [&]( auto& d ) { if( f == 0 ) d.translate( x, y ); else if( f == 1 ) d.translate( std::make_pair(x,y) ); else translate( d, x, y ); };
			if( k ) go( o.at(i) ); else go( s.at(i) );
		}
		else if( n == "smv" ) {
			auto k = op.i(), i = op.i(), f = op.i(); auto x = op.c(), y = op.c();
			auto go = [&]( auto& d ) { if( f == 0 ) d.moveTo( x, y ); else if( f == 1 ) d.moveTo( P(x,y) ); else moveTo( d, P(x,y) ); };
			if( k ) go( o.at(i) ); else go( s.at(i) );
		}
		else if( n == "smp" ) { auto k = op.i(), i = op.i(), j = op.i(); if( p.at(j).isInf() ) throw Skip(); if( k ) o.at(i).moveTo( p.at(j) ); else s.at(i).moveTo( p.at(j) ); }
		else if( n == "ssp" ) {
			auto k = op.i(), i = op.i(), j = op.i(), w = op.i();
			if( k ) { auto q = (i+j)%2 ? o.at(j).split() : split( o.at(j) ); o.at(i) = w ? q.second : q.first; }
			else { auto q = (i+j)%2 ? s.at(j).split() : split( s.at(j) ); s.at(i) = w ? q.second : q.first; }
		}
		else if( n == "sex" ) { auto k = op.i(), i = op.i(), j = op.i(); if( k ) o.at(i) = o.at(j).getExtended(); else s.at(i) = (i+j)%2 ? s.at(j).getExtended() : getExtended( s.at(j) ); }
		// ------------------------------------------------ queries
		else if( n == "po" ) {
			const P& q = p.at( op.i() );
			ev.add( "v", js( q ) ); ev.add( "inf", js( q.isInf() ) ); ev.add( "sz", js( q.size() ) );
			ev.add( "len", js( fl( q.length() ) ) ); ev.add( "ar", js( fa( q.area() ) ) );
		}
		else if( n == "lo" ) {
			const L& q = l.at( op.i() );
			ev.add( "v", jline( q ) ); ev.add( "inf", js( q.isInf() ) ); ev.add( "sz", js( q.size() ) ); ev.add( "ar", js( fa( q.area() ) ) );
			query( ev, "len", [&]{ return js( fl( q.length() ) ); } );
		}
		else if( n == "eqp" ) {
			const P& a = p.at( op.i() ); const P& b = p.at( op.i() );
			ev.add( "q", js( a == b ) ); ev.add( "ne", js( a != b ) ); ev.add( "lt", js( a < b ) ); ev.add( "gt", js( b < a ) );
		}
		else if( n == "eql" ) {
			const L& a = l.at( op.i() ); const L& b = l.at( op.i() );
			ev.add( "q", js( a == b ) ); ev.add( "q2", js( b == a ) ); ev.add( "ne", js( a != b ) ); ev.add( "par", js( a.isParallelTo(b) ) ); ev.add( "par2", js( areParallel(b,a) ) );
			query( ev, "pd", [&]{ return js( fxs( (double)getParallelDistance(a,b)/g_scale, 1000 ) ); } );
		}
		else if( n == "inc" ) {
			const P& a = p.at( op.i() ); const L& b = l.at( op.i() );
			ev.add( "d", js( fxs( (double)b.distTo(a)/g_scale, 1000 ) ) ); ev.add( "d2", js( fxs( (double)a.distTo(b)/g_scale, 1000 ) ) );
			ev.add( "sd", js( side( a, b ) ) );
		}
		else if( n == "pd" ) {
			const P& a = p.at( op.i() ); const P& b = p.at( op.i() );
			ev.add( "d", js( fl( a.distTo(b) ) ) ); ev.add( "d2", js( fl( dist(b,a) ) ) );
		}
		else if( n == "col" ) { auto a = op.i(), b = op.i(), c = op.i(); if( p.at(a).isInf() || p.at(b).isInf() || p.at(c).isInf() ) throw Skip(); ev.add( "v", js( areCollinear( p.at(a), p.at(b), p.at(c) ) ) ); }
		else if( n == "ang" ) {
			auto k1 = op.i(), i = op.i(), k2 = op.i(), j = op.i();
			ev.add( "k3", js( k1 < 2 && k2 < 2 ) );
			if( k1 == 0 && k2 == 0 ) angles( ev, l.at(i), l.at(j), true );
			else if( k1 == 0 && k2 == 1 ) angles( ev, l.at(i), s.at(j), true );
			else if( k1 == 0 ) angles( ev, l.at(i), o.at(j), true );
			else if( k1 == 1 && k2 == 0 ) angles( ev, s.at(i), l.at(j), true );
			else if( k1 == 1 && k2 == 1 ) angles( ev, s.at(i), s.at(j), true );
			else if( k1 == 1 ) angles( ev, s.at(i), o.at(j), true );
			else if( k2 == 0 ) angles( ev, o.at(i), l.at(j), true );
			else if( k2 == 1 ) angles( ev, o.at(i), s.at(j), true );
			else angles( ev, o.at(i), o.at(j), true );
			if( k1 < 2 && k2 < 2 )
				ev.add( "par", js( k1 == 0 ? ( k2 == 0 ? l.at(i).isParallelTo(l.at(j)) : l.at(i).isParallelTo(s.at(j)) ) : ( k2 == 0 ? areParallel( s.at(i), l.at(j) ) : s.at(i).isParallelTo( s.at(j) ) ) ) );
		}
		else if( n == "lpls" ) {
			const L& a = l.at( op.i() ); auto d = op.c();
			auto q = a.getParallelLines( d ); auto q2 = getParallelLines( a, d );
			if( !(q2.first == q.first) ) q.first = q2.first;
			ev.add( "l0", jline( a ) ); ev.add( "l1", jline( q.first ) ); ev.add( "l2", jline( q.second ) );
		}
		else if( n == "lgp" ) { const L& a = l.at( op.i() ); const P& x = p.at( op.i() ); auto d = op.c(); query( ev, "v", [&]{ auto q = a.getPoints( x, d ); return jp( q.first, q.second ); } ); }
		else if( n == "lgc" ) {
			const L& a = l.at( op.i() ); auto g = op.i() ? GivenCoord::Y : GivenCoord::X; auto v = op.c(); auto d = op.c();
			query( ev, "v", [&]{ return js( fx( a.getCoord( g, v ) ) ); } );
			query( ev, "pt", [&]{ return js( a.getPoint( g, v ) ); } );
			query( ev, "pp", [&]{ auto q = a.getPoints( g, v, d ); return jp( q.first, q.second ); } );
		}
		else if( n == "los" ) { const L& a = l.at( op.i() ); const P& x = p.at( op.i() ); if( x.isInf() ) throw Skip(); query( ev, "v", [&]{ return js( a.getOrthogSegment( x ) ); } ); }
		else if( n == "so" ) {
			auto k = op.i(), i = op.i();
			auto go = [&]( const auto& d ) {
				ev.add( "v", js( d ) ); ev.add( "sz", js( d.size() ) ); ev.add( "ar", js( fa( d.area() ) ) );
				ev.add( "len", js( fxs( (double)d.length()/g_scale, 1000 ) ) ); ev.add( "ct", js( d.getCenter() ) ); ev.add( "li", jline( d.getLine() ) );
			};
			if( k ) { const O& d = o.at(i); go( d ); ev.add( "v2", js( d ) ); ev.add( "ct2", js( d.getCenter() ) ); auto v = d.getVector(); ev.add( "vec", jp( fx(v.first), fx(v.second) ) ); }
			else { const S& d = s.at(i); go( d ); auto q = getPts( d ); ev.add( "v2", jp( q.first, q.second ) ); ev.add( "ct2", js( getCenter( d ) ) ); }
		}
		else if( n == "seq" ) {
			auto k = op.i(), i = op.i(), j = op.i();
			auto go = [&]( const auto& a, const auto& b ) { ev.add( "q", js( a == b ) ); ev.add( "ne", js( a != b ) ); ev.add( "lt", js( a < b ) ); ev.add( "gt", js( b < a ) ); };
			if( k ) go( o.at(i), o.at(j) ); else go( s.at(i), s.at(j) );
		}
		else if( n == "sid" ) { auto i = op.i(), j = op.i(); if( p.at(j).isInf() ) throw Skip(); ev.add( "v", js( sideName( o.at(i).getPointSide( p.at(j) ) ) ) ); }
		else if( n == "gpa" ) { auto i = op.i(); auto d = op.c(); query( ev, "v", [&]{ return js( o.at(i).getPointAt( d ) ); } ); }
		else if( n == "spd" ) { auto i = op.i(); auto d = op.c(); query( ev, "v", [&]{ auto q = i%2 ? o.at(i).split( d ) : split( o.at(i), d ); return jp( q.first, q.second ); } ); }
		else if( n == "sop" ) {
			auto k = op.i(), i = op.i();
			if( k ) { ev.add( "p", jl( o.at(i).getOrthogPts() ) ); ev.add( "s", jl( o.at(i).getOrthogSegs() ) ); }
			else if( i%2 ) { ev.add( "p", jl( s.at(i).getOrthogPts() ) ); ev.add( "s", jl( s.at(i).getOrthogSegs() ) ); }
			else { ev.add( "p", jl( getOrthogPts( s.at(i) ) ) ); ev.add( "s", jl( getOrthogSegs( s.at(i) ) ) ); }
		}
		else if( n == "sps" ) {
			auto k = op.i(), i = op.i(); auto d = op.c();
			query( ev, "v", [&]{
				if( k ) { auto q = o.at(i).getParallelSegs( d ); return jp( q.first, q.second ); }
				auto q = i%2 ? s.at(i).getParallelSegs( d ) : getParallelSegs( s.at(i), d ); return jp( q.first, q.second );
			} );
		}
		else if( n == "ctr" ) {
			auto i = op.i(), j = op.i();
			std::vector<S> v{ s.at(i), s.at(j) }; std::list<S> w( v.begin(), v.end() );
			if( i%2 ) { ev.add( "v", jl( getCenters( v ) ) ); auto q = getLines( w ); ev.add( "l", "[" + jline(q.at(0)) + "," + jline(q.at(1)) + "]" ); }
			else { ev.add( "v", jl( getCenters( w ) ) ); auto q = getLines( v ); ev.add( "l", "[" + jline(q.at(0)) + "," + jline(q.at(1)) + "]" ); }
		}
		else if( n == "tan" ) {
			auto x = op.c(), y = op.c(), r = op.c(); Circle_<FT> a( P(x,y), r );
			x = op.c(); y = op.c(); r = op.c(); Circle_<FT> b( P(x,y), r );
			query( ev, "v", [&]{ auto q = getTanSegs( a, b ); return jp( q.first, q.second ); } );
			query( ev, "sc", [&]{ return alt() ? js( getSegment( a, b ) ) : js( Segment_<FT>( h2d::center(a), h2d::center(b) ) ); } );
			query( ev, "cl", [&]{ return jline( getLine<FT>( a, b ) ); } );
		}
		else if( n == "bis" ) {
			auto c = op.i(); auto k = op.i(); std::vector<P> v;
			for( long i=0; i<k; i++ ) { auto x = op.c(), y = op.c(); v.push_back( P(x,y) ); }
			auto show = [&]( const auto& q ) { std::string r = "["; int i=0; for( const auto& e: q ) r += (i++ ? "," : "") + jline( e ); return r + "]"; };
			for( long i=0; i<k; i++ ) if( k == 1 || ( v[i] == v[(i+1)%k] ) ) throw Skip();
			if( c ) { CPolyline_<FT> q( v ); query( ev, "v", [&]{ return k%2 ? show( q.getBisectorLines() ) : show( getBisectorLines( q ) ); } ); }
			else { OPolyline_<FT> q( v ); query( ev, "v", [&]{ return k%2 ? show( q.getBisectorLines() ) : show( getBisectorLines( q ) ); } ); }
		}
		else _exit(5);
	} );
}
int main( int c, char** v ) { return run( c, v, step ); }
