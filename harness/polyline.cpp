// Interpreter for spec/Polyline.tla: up to three polylines (open or closed) and their histories.
#include "vh.hpp"
#include <memory>
using namespace h2d;
using namespace vh;

using C = CPolyline_<FT>;
using O = OPolyline_<FT>;
using P = Point2d_<FT>;

struct Slot { bool closed = true; C c; O o; };
static Slot S[4];

static std::vector<P> readPts( Op& op ) {
	long n = op.i();
	std::vector<P> v;
	for( long k=0; k<n; k++ ) { auto x = op.c(); auto y = op.c(); v.push_back( P(x,y) ); }
	return v;
}
template<typename Fn> auto onSlot( int s, Fn f ) { if( S[s].closed ) return f( S[s].c ); else return f( S[s].o ); }
template<typename T> const T& cst( const T& t ) { return t; }

static std::string ptsOf( int s ) { return onSlot( s, []( auto& p ) { return jl( cst(p).getPts() ); } ); }

template<typename PL> void queries( Ev& ev, const std::string& what, const PL& p ) {
	auto want = [&]( const char* k ) { return what == "qobs" || what == k; };
	if( want("qn") )      { ev.add( "n", js(p.size()) ); ev.add( "ns", js(p.nbSegs()) ); ev.add( "closed", js(p.isClosed()) );
	                        ev.add( "n2", js( (long)size(p) ) ); ev.add( "ns2", js( (long)nbSegs(p) ) ); }
	if( want("qlen") )    { ev.add( "len", js(fl(p.length())) ); ev.add( "len2", js(fl(length(p))) ); }
	if( want("qarea") )   { ev.add( "area", js(fa(p.area())) ); ev.add( "area2", js(fa(area(p))) ); }
	if( want("qsimple") ) { ev.add( "simple", js(p.isSimple()) ); ev.add( "simple2", js(isSimple(p)) ); }
	if( want("qconvex") ) { ev.add( "convex", js(p.isConvex()) ); ev.add( "convex2", js(isConvex(p)) ); }
	if( want("qcen") )    { query( ev, "cen", [&]{ return js( p.centroid() ); } ); query( ev, "cenb", [&]{ return js( centroid(p) ); } ); }
	if( want("qbb") )     { query( ev, "bb", [&]{ return js( p.getBB() ); } ); query( ev, "bbb", [&]{ return js( getBB(p) ); } ); }
	if( want("qsegs") )   { ev.add( "segs", jl( alt() ? p.getSegs() : h2d::getSegs( p ) ) ); ev.add( "osegs", jl( p.getOSegs() ) ); }
}

static Homogr_<FT> readH( Op& op ) {     // affine: a b tx / c d ty
	double a = op.i(), b = op.i(), tx = op.c(), c = op.i(), d = op.i(), ty = op.c();
	std::vector<std::vector<double>> m{ {a,b,tx}, {c,d,ty}, {0,0,1} };
	return Homogr_<FT>( m );
}

static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		for( int k=1; k<=3; k++ ) { S[k] = Slot(); S[k].closed = op.i() != 0; }
		return;
	}
	int s = (int)op.i();
	int t = 0;
	if( n == "set" ) {
		int kind = (int)op.i();
		auto v = readPts( op );
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			using PL = std::decay_t<decltype(p)>;
			if( kind == 0 ) p.set( v );
			else if( kind == 1 ) { std::list<P> l( v.begin(), v.end() ); p.set( l ); }
			else if( kind == 2 ) { p = PL( v ); }
			else if( kind == 3 ) { std::vector<Point2d_<GT>> w; for( auto& q: v ) w.push_back( Point2d_<GT>( q.getX(), q.getY() ) ); p.set( w ); }
			else { std::list<P> l( v.begin(), v.end() ); p = PL( l ); }
		} ); } );
	}
	else if( n == "setrect" ) {
		int kind = (int)op.i();
		auto x0 = op.c(), y0 = op.c(), x1 = op.c(), y1 = op.c();
		guarded( ev, [&]{
			if( !S[s].closed ) throw Skip();
			FRect_<FT> r( x0, y0, x1, y1 );
			if( kind == 0 ) S[s].c.set( r ); else S[s].c = C( r );
		} );
	}
	else if( n == "para" ) {
		auto v = readPts( op );
		guarded( ev, [&]{ if( !S[s].closed ) throw Skip(); S[s].c.setParallelogram( v.at(0), v.at(1), v.at(2) ); } );
	}
	else if( n == "tr" ) {
		auto dx = op.c(), dy = op.c(); int k = (int)op.i();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			if( k == 0 ) p.translate( dx, dy ); else if( k == 1 ) p.translate( std::make_pair(dx,dy) ); else if( alt() ) translate( p, dx, dy ); else translate( p, std::make_pair(dx,dy) );
		} ); } );
	}
	else if( n == "mv" ) {
		auto x = op.c(), y = op.c(); int k = (int)op.i();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			if( k == 0 ) p.moveTo( x, y ); else if( k == 1 ) p.moveTo( Point2d_<FT>(x,y) ); else moveTo( p, Point2d_<FT>(x,y) );
		} ); } );
	}
	else if( n == "rot" ) {
		auto r = static_cast<Rotate>( op.i() ); int k = (int)op.i();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) { if( k == 0 ) p.rotate( r ); else rotate( p, r ); } ); } );
	}
	else if( n == "rotc" ) {
		auto r = static_cast<Rotate>( op.i() ); auto x = op.c(), y = op.c(); int k = (int)op.i();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			if( k == 0 ) p.rotate( r, P(x,y) ); else if( k == 1 ) rotate( p, r, P(x,y) ); else p.rotate( r, Point2d_<GT>(x,y) );
		} ); } );
	}
	else if( n == "roto" ) {          // about one of its own points
		auto r = static_cast<Rotate>( op.i() ); size_t idx = (size_t)op.i();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			if( idx >= p.size() ) throw Skip();
			p.rotate( r, cst(p).getPts()[idx] );
		} ); } );
	}
	else if( n == "min" )  guarded( ev, [&]{ onSlot( s, [&]( auto& p ) { p.minimize(); } ); } );
	else if( n == "clr" )  guarded( ev, [&]{ onSlot( s, [&]( auto& p ) { p.clear(); } ); } );
	else if( n == "asg" || n == "cpy" || n == "swp" ) {
		t = (int)op.i();
		guarded( ev, [&]{
			if( S[s].closed != S[t].closed ) throw Skip();
			if( n == "asg" ) { if( S[s].closed ) { auto& r = S[t].c; S[s].c = r; } else { auto& r = S[t].o; S[s].o = r; } }
			else if( n == "cpy" ) { if( S[s].closed ) { C x( S[t].c ); S[s].c = std::move(x); } else { O x( S[t].o ); S[s].o = std::move(x); } }
			else if( S[s].closed ) std::swap( S[s].c, S[t].c ); else std::swap( S[s].o, S[t].o );
		} );
	}
	else if( n == "conv" ) {
		t = (int)op.i();
		guarded( ev, [&]{
			if( S[s].closed && S[t].closed )        { CPolyline_<GT> x( S[t].c ); S[s].c = C( x ); }
			else if( !S[s].closed && !S[t].closed ) { OPolyline_<GT> x( S[t].o ); S[s].o = O( x ); }
			else if( S[s].closed )                  { S[s].c = C( S[t].o ); }
			else throw Skip();
		} );
	}
	else if( n == "sib" ) {           // built anew from the present vertices of another one: other start, other direction
		t = (int)op.i();
		size_t rot = (size_t)op.i(); int rev = (int)op.i(); int k = (int)op.i();
		guarded( ev, [&]{
			if( s == t || S[s].closed != S[t].closed ) throw Skip();
			std::vector<P> v;
			onSlot( t, [&]( auto& p ) { for( auto& q: cst(p).getPts() ) v.push_back( q ); } );
			if( S[s].closed && !v.empty() ) std::rotate( v.begin(), v.begin() + rot % v.size(), v.end() );
			if( rev ) std::reverse( v.begin(), v.end() );
			onSlot( s, [&]( auto& p ) { using PL = std::decay_t<decltype(p)>; if( k == 0 ) p = PL( v ); else p.set( v ); } );
		} );
	}
	else if( n == "edit" ) {
		size_t idx = (size_t)op.i(); auto x = op.c(), y = op.c();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			auto m = p.size();
			if( idx >= m ) throw Skip();
			P q( x, y );
			auto& v = cst(p).getPts();
			if( v[(idx+1)%m] == q || v[(idx+m-1)%m] == q ) throw Skip();
			p.getPts()[idx] = q;
		} ); } );
	}
	else if( n == "hom" ) {
		auto H = readH( op ); int k = (int)op.i();
		guarded( ev, [&]{ onSlot( s, [&]( auto& p ) {
			if( k == 0 ) { auto q = H * p; p = q; } else { p = H * p; }
		} ); } );
	}
	else if( n == "eq" ) {
		t = (int)op.i();
		bool e = onSlot( s, [&]( auto& p ) { return onSlot( t, [&]( auto& q ) { return p == q; } ); } );
		ev.add( "b", js(e) );
	}
	else if( n == "ne" ) {
		t = (int)op.i();
		bool e = onSlot( s, [&]( auto& p ) { return onSlot( t, [&]( auto& q ) { return p != q; } ); } );
		ev.add( "b", js(e) );
	}
	else if( n == "qpt" ) {
		size_t idx = (size_t)op.i();
		onSlot( s, [&]( auto& p ) { query( ev, "pt", [&]{ return js( p.getPoint(idx) ); } ); } );
	}
	else if( n == "qseg" ) {
		size_t idx = (size_t)op.i();
		onSlot( s, [&]( auto& p ) {
			query( ev, "sg", [&]{ return js( p.getSegment(idx) ); } );
			query( ev, "os", [&]{ return js( p.getOSegment(idx) ); } );
		} );
	}
	else
		onSlot( s, [&]( auto& p ) { queries( ev, n, cst(p) ); } );
	ev.add( "v", ptsOf(s) );
	if( t ) ev.add( "w", ptsOf(t) );
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
