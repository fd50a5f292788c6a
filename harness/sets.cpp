// Interpreter for spec/Sets.tla: a vector of points and a circle object.
#include "vh.hpp"
#include <deque>
#include <algorithm>
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
static std::vector<P> V;
static Circle_<FT> C;

static std::vector<P> readPts( Op& op ) {
	long n = op.i();
	std::vector<P> v;
	for( long k=0; k<n; k++ ) { auto x = op.c(); auto y = op.c(); v.push_back( P(x,y) ); }
	return v;
}
static void needPoly() {       // a polyline can not hold them: does not apply
	if( V.size() == 1 ) throw Skip();
	for( size_t i=0; i<V.size(); i++ ) if( V.size() > 1 && V[i] == V[(i+1)%V.size()] ) throw Skip();
}
template<typename T> void extC( Ev& ev, const T& c, int v ) {
	std::string idx;
	auto one = [&]( const char* k, CardDir d ) {
		query( ev, k, [&]{
			auto r = v == 4 ? getExtremePoint( d, c )
			       : d == CardDir::Top ? getTmPoint(c) : d == CardDir::Bottom ? getBmPoint(c) : d == CardDir::Left ? getLmPoint(c) : getRmPoint(c);
			idx += (idx.empty()?"":",") + js( (long)r.second );
			return js( r.first );
		} );
	};
	one( "t", CardDir::Top ); one( "b", CardDir::Bottom ); one( "l", CardDir::Left ); one( "ri", CardDir::Right );
	ev.add( "i", "[" + idx + "]" );
}
template<typename T> void extP( Ev& ev, const T& c, bool mem ) {
	auto one = [&]( const char* k, CardDir d ) {
		query( ev, k, [&]{
			if( mem ) return js( c.getExtremePoint( d ) );
			return js( d == CardDir::Top ? ( alt() ? c.getTmPoint() : getTmPoint(c) ) : d == CardDir::Bottom ? ( alt() ? getBmPoint(c) : c.getBmPoint() ) : d == CardDir::Left ? ( alt() ? c.getLmPoint() : getLmPoint(c) ) : alt() ? getRmPoint(c) : c.getRmPoint() );
		} );
	};
	one( "t", CardDir::Top ); one( "b", CardDir::Bottom ); one( "l", CardDir::Left ); one( "ri", CardDir::Right );
	ev.add( "i", "[]" );
}
template<size_t N> std::array<P,N> arr() { std::array<P,N> a; std::copy_n( V.begin(), N, a.begin() ); return a; }
template<typename F> void withArray( F f ) {
	switch( V.size() ) {
		case 2: f( arr<2>() ); break; case 3: f( arr<3>() ); break; case 4: f( arr<4>() ); break; case 5: f( arr<5>() ); break; case 6: f( arr<6>() ); break;
		default: throw Skip();
	}
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { std::srand( op.more() ? (unsigned)op.i() : 1u );   // the library calls std::rand(): make episodes repeatable
		V.clear(); C = Circle_<FT>(); C.radius() = g_scale; return; }
	bool mod = true;
	guarded( ev, [&]{
		if( n == "set" ) V = readPts( op );
		else if( n == "add" ) { auto x = op.c(), y = op.c(); V.push_back( P(x,y) ); }
		else if( n == "pop" ) { if( !V.empty() ) V.pop_back(); }
		else if( n == "rev" ) std::reverse( V.begin(), V.end() );
		else if( n == "rotl" ) { long k = op.i(); if( !V.empty() ) std::rotate( V.begin(), V.begin() + k % V.size(), V.end() ); }
		else if( n == "dup" ) { long k = op.i(); if( !V.empty() ) { auto p = V[k % V.size()]; V.push_back( p ); } }
		else if( n == "srt" ) std::sort( V.begin(), V.end() );
		else mod = false;
		if( n == "hull" ) {
			int v = (int)op.i();
			if( v > 0 ) needPoly();
			query( ev, "h", [&]{
				CPolyline_<FT> h;
				if( v == 0 ) h = convexHull( V );
				else if( v == 1 ) h = convexHull( OPolyline_<FT>(V) );
				else if( v == 2 ) h = CPolyline_<FT>(V).convexHull();
				else h = OPolyline_<FT>(V).convexHull();
				const auto& hc = h;
				auto o = jl( hc.getPts() );
				ev.add( "cv", js( h.isConvex() ) ); ev.add( "sz", js( h.size() ) ); ev.add( "ar", js( fa( h.area() ) ) );
				return o;
			} );
		}
		else if( n == "ext" ) {
			int v = (int)op.i();
			if( v >= 3 ) needPoly();
			if( v == 0 ) extC( ev, V, 0 );
			else if( v == 1 ) extC( ev, std::list<P>( V.begin(), V.end() ), 0 );
			else if( v == 2 ) extC( ev, V, 4 );
			else if( v == 3 ) extP( ev, OPolyline_<FT>(V), true );
			else extP( ev, CPolyline_<FT>(V), false );
		}
		else if( n == "near" ) {
			auto x = op.c(), y = op.c();
			Point2d_<FT> q( x, y );
			Point2d_<GT> q2( x, y );
			query( ev, "n", [&]{ return js( findNearestPoint( q, V ) ); } );
			query( ev, "f", [&]{ return js( findFarthestPoint( q, std::deque<P>( V.begin(), V.end() ) ) ); } );
			query( ev, "nf", [&]{ auto r = findNearestFarthestPoint( q, V ); return jp( r.first, r.second ); } );
		}
		else if( n == "bbp" ) {
			int v = (int)op.i();
			query( ev, "bb", [&]{
				if( v == 1 ) return js( getBB( std::list<P>( V.begin(), V.end() ) ) );
				if( v == 2 && V.size() >= 2 && V.size() <= 6 ) { std::string o; withArray( [&]( const auto& a ){ o = js( getBB( a ) ); } ); return o; }
				return js( getBB( V ) );
			} );
		}
		else if( n == "ins" ) {
			int k = (int)op.i();
			query( ev, "v", [&]{
				if( k == 5 ) { auto a=op.c(), b=op.c(), c=op.c(), d=op.c(); return jl( getPtsInside( V, FRect_<FT>( a, b, c, d ) ) ); }
				if( k == 6 ) { auto a=op.c(), b=op.c(), c=op.c(); return jl( getPtsInside( V, Circle_<FT>( a, b, c ) ) ); }
				return jl( getPtsInside( V, CPolyline_<FT>( readPts( op ) ) ) );
			} );
		}
		else if( n == "mec" || n == "cir" ) {
			int v = (int)op.i();
			bool keep = false;
			bool thrown = false;
			if( n == "mec" && v == 3 && (V.size() < 2 || V.size() > 6) ) v = 0;
			Circle_<FT> r;
			try {
				if( n == "cir" ) {
					keep = true;
					if( V.empty() ) throw Skip();
					auto s = V.size();
					auto i = op.i() % s, j = op.i() % s, k = op.i() % s;
					if( v == 2 ) C.set( V[i], V[j] ); else { C = Circle_<FT>( V[i], V[j], V[k] ); }
				}
				else if( v == 0 ) r = Circle_<FT>( V );
				else if( v == 1 ) r = Circle_<FT>( std::list<P>( V.begin(), V.end() ) );
				else if( v == 2 ) { keep = true; C.set( V ); }
				else if( v == 3 ) withArray( [&]( const auto& a ){ r = Circle_<FT>( a ); } );
				else { keep = true; C.set( std::list<P>( V.begin(), V.end() ) ); }
			}
			catch( const Skip& ) { throw; }
			catch( const std::exception& ) { thrown = true; }
			bool z = false;
#ifdef HOMOG2D_NOCHECKS
			z = true;
#else
			try { Circle_<FT> c0( P(0,0), 0. ); } catch( const std::exception& ) { z = true; }
			try { Circle_<FT> c1( P(1,2), 0.5*g_scale ); } catch( const std::exception& ) { z = false; }
#endif
			ev.add( "cT", js( thrown ) ); ev.add( "z", js( z ) ); ev.add( "keep", js( keep ) ); ev.add( "c", js( keep ? C : r ) );
		}
	} );
	if( mod ) ev.add( "v", jl( V ) );
}
int main( int c, char** v ) { return run( c, v, step ); }
