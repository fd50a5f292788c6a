// Interpreter for spec/Ellipse.tla: three ellipses.
#include "vh.hpp"
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using E = Ellipse_<FT>;
using H = Homogr_<FT>;
static std::vector<E> M;
static const long double PI = 3.14159265358979323846264338327950288L;
static long double angle( long k ) {
	static const int c[8][2] = { {3,4},{4,3},{-3,4},{-4,3},{3,-4},{4,-3},{-3,-4},{-4,-3} };
	if( k < 4 ) return k*PI/2;
	return std::atan2( (long double)c[k-4][1], (long double)c[k-4][0] );
}
static H readH( Op& op, long via ) {        // nine values, row by row, seen through the scale of the coordinates
	double v[9];
	for( auto& x: v ) x = op.i();
	v[2] *= g_scale; v[5] *= g_scale; v[6] /= g_scale; v[7] /= g_scale;
	std::vector<std::vector<double>> m{ {v[0],v[1],v[2]}, {v[3],v[4],v[5]}, {v[6],v[7],v[8]} };
	if( via == 0 ) return H( m );
	std::array<std::array<FT,3>,3> a;
	for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) a[i][j] = (FT)v[i*3+j];
	if( via == 1 ) return H( a );
	H h; h = m; return h;
}
static long f3( long double v ) { return fxs( v/g_scale, 1000 ); }
static std::string jdir( long double a ) { return "[" + js(fr(std::cos(2*a))) + "," + js(fr(std::sin(2*a))); }
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { M.assign( 4, g_scale == 1. ? E() : E( 0., 0., 2*g_scale, g_scale, 0. ) ); ev.add( "f", js( sizeof(FT) == 4 ) ); return; }
	guarded( ev, [&]{
		auto s = op.i();
		E& e = M.at(s);
		if( n == "new" ) {
			auto via = op.i(); auto cx = op.c(), cy = op.c(); auto a = op.c(), b = op.c(); double d = op.i(); auto k = op.i();
			a /= d; b /= d;
			double th = (double)angle( k );
			switch( via ) {
				case 0: { E x; if( g_scale != 1. ) x = E( 0., 0., 2*g_scale, 1*g_scale, 0. ); e = x; break; }
				case 1: e = g_scale == 1. ? E( cx, cy ) : E( cx, cy, 2*g_scale, g_scale ); break;
				case 2: e = g_scale == 1. ? E( P(cx,cy) ) : E( P(cx,cy), 2*g_scale, g_scale ); break;
				case 3: e = E( cx, cy, a, b, th ); break;
				case 4: e = E( cx, cy, a, b ); break;
				case 5: e = E( Point2d_<GT>(cx,cy), a, b, th ); break;
				default: e = E( P(cx,cy), (float)a, (float)b ); break;
			}
		}
		else if( n == "cir" ) {
			auto via = op.i(); auto cx = op.c(), cy = op.c(), r = op.c();
			if( via == 0 ) e = E( Circle_<FT>( P(cx,cy), r ) );
			else { E x( Circle_<FT>( P(cx,cy), r ) ); e = x; }
		}
		else if( n == "cp" ) {
			auto t = op.i(); auto via = op.i();
			const E& o = M.at(t);
			if( via == 0 ) e = o; else if( via == 1 ) { E x( o ); e = x; } else if( via == 2 ) { std::vector<E> v; v.push_back( o ); v.push_back( o ); e = v[1]; }
			else { Ellipse_<GT> g( o ); e = E( g ); }
		}
		else if( n == "tr" ) {
			auto via = op.i(); auto x = op.c(), y = op.c();
			if( via == 0 ) e.translate( x, y ); else if( via == 1 ) e.translate( (float)x, (long double)y ); else if( via == 2 ) e.translate( std::make_pair(x,y) ); else h2d::translate( e, x, y );
		}
		else if( n == "mv" ) {
			auto via = op.i(); auto x = op.c(), y = op.c();
			if( via == 0 ) e.moveTo( x, y ); else if( via == 1 ) e.moveTo( Point2d_<GT>(x,y) ); else if( via == 2 ) e.moveTo( P(x,y) ); else h2d::moveTo( e, P(x,y) );
		}
		else if( n == "hom" ) { auto t = op.i(); auto via = op.i(); auto h = readH( op, via ); e = h * M.at(t); }
		else if( n == "hci" ) { auto x = op.c(), y = op.c(), r = op.c(); auto via = op.i(); auto h = readH( op, via ); e = h * Circle_<FT>( P(x,y), r ); }
		else if( n == "obs" ) {
			auto via = op.i();
			const E& c = e;
			ev.add( "ty", js( std::string( getString( c.type() ) ) ) );
			ev.add( "sz", js( (long)( via ? h2d::size(c) : c.size() ) ) );
			query( ev, "cen", [&]{ return js( via ? h2d::getCenter(c) : c.getCenter() ); } );
			query( ev, "mm", [&]{ auto m = c.getMajMin(); return jp( f3(m.first), f3(m.second) ); } );
			query( ev, "ang", [&]{ return jdir( via ? h2d::angle(c) : c.angle() ) + "]"; } );
			query( ev, "area", [&]{ return js( fxs( (long double)( via ? h2d::area(c) : c.area() )/PI/g_scale/g_scale, 100 ) ); } );
			query( ev, "len", [&]{ return js( f3( via ? h2d::length(c) : c.length() ) ); } );
			query( ev, "bb", [&]{ return js( via ? h2d::getBB(c) : c.getBB() ); } );
			query( ev, "obb", [&]{ return jl( ( via ? h2d::getOBB(c) : c.getOBB() ).getPts() ); } );
			query( ev, "ax", [&]{
				auto p = via ? h2d::getAxisLines(c) : c.getAxisLines();
				auto o = c.getCenter();
				auto f = [&]( const Line2d_<FT>& l ) { auto a = l.get(); return jdir( std::atan2( -(long double)a[0], (long double)a[1] ) ) + "," + js(f3( (a[0]*o.getX() + a[1]*o.getY() + a[2]) )) + "]"; };
				return "[" + f( p.first ) + "," + f( p.second ) + "]";
			} );
			ev.add( "ic", js( via ? h2d::isCircle(c) : c.isCircle() ) );
			ev.add( "icl", js( via ? h2d::isCircle(c,1e30) : c.isCircle(1e30) ) );
		}
		else if( n == "pin" ) {
			auto x = op.c(), y = op.c(); double d = op.i();
			P p( x/d, y/d );
			ev.add( "v", js( p.isInside( e ) ) );
			ev.add( "v2", js( Point2d_<GT>( x/d, y/d ).isInside( e ) ) );
			// a segment is inside when its two ends are: one end is the centre
			auto c = e.getCenter();
			bool far = std::hypot( (double)p.getX()-(double)c.getX(), (double)p.getY()-(double)c.getY() ) > 1e-3;
			ev.add( "v3", js( !far ? p.isInside( e ) : alt() ? Segment_<FT>( p, c ).isInside( e ) : OSegment_<FT>( c, p ).isInside( e ) ) );
		}
		else if( n == "pim" ) {
			auto x = op.c(), y = op.c(); double d = op.i();
			auto h = readH( op, 0 );
			ev.add( "v", js( ( h * P( x/d, y/d ) ).isInside( h * e ) ) );
		}
		else if( n == "sca" ) {            // image by a large or small scale factor: 10^k
			double f = std::pow( 10., (double)op.i() );
			H h; h.setScale( f );
			auto o = h * e;
			query( ev, "cen", [&]{ auto p = o.getCenter(); return jp( fx( (long double)p.getX()/f ), fx( (long double)p.getY()/f ) ); } );
			query( ev, "mm", [&]{ auto m = o.getMajMin(); return jp( f3((long double)m.first/f), f3((long double)m.second/f) ); } );
		}
		else if( n == "eq" ) {
			auto t = op.i();
			const E& a = e; const E& b = M.at(t);
			ev.add( "q", js( a == b ) ); ev.add( "ne", js( a != b ) ); ev.add( "q2", js( b == a ) );
		}
		else { std::fprintf( stderr, "unknown op %s\n", n.c_str() ); _exit(4); }
	});
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
