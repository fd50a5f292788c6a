// Interpreter for spec/Refuse.tla: one object of each kind, requests that may be invalid; after
// each of them everything is dumped, with what happened to the error counter.
#include "vh.hpp"
#include <list>
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using L = Line2d_<FT>;
struct World {
	P p; L l;
	Segment_<FT> s; OSegment_<FT> o; Circle_<FT> c; FRect_<FT> r;
	CPolyline_<FT> cp; OPolyline_<FT> op; Homogr_<FT> h;
};
static World w;
// a translation cell is a coordinate, a perspective cell the inverse of one
static double unit( long r, long c ) { return r < 2 && c == 2 ? g_scale : r == 2 && c < 2 ? 1./g_scale : 1.; }
static size_t count0;
static std::string line3( const L& l ) {
	auto a = l.get();
	return "[" + js(fxs(a[0],1000)) + "," + js(fxs(a[1],1000)) + "," + js(fxs((long double)a[2]/g_scale,1000)) + "]";
}
static void dump( Ev& ev ) {
	ev.add( "dc", js( (long)(err::errorCount() - count0) ) );
	ev.add( "p", js( w.p ) );
	ev.add( "l", line3( w.l ) );
	ev.add( "s", js( w.s ) );
	ev.add( "o", js( w.o ) );
	ev.add( "c", js( w.c ) );
	ev.add( "b", js( w.r ) );
	ev.add( "cp", jl( w.cp.getPts() ) );
	ev.add( "oq", jl( w.op.getPts() ) );
	const auto& cp = w.cp; const auto& op = w.op;
	ev.add( "len", "[" + js(fl(cp.length())) + "," + js(fl(op.length())) + "]" );
	std::string m = "[";
	for( int i=0; i<9; i++ ) m += (i?",":"") + js( fr( (long double)((const Homogr_<FT>&)w.h).value(i/3,i%3) / unit(i/3,i%3) ) );
	ev.add( "h", m + "]" );
}
static P pt( Op& op ) { auto x = op.c(), y = op.c(); return P(x,y); }
static std::vector<P> pts( Op& op ) {
	long n = op.i();
	std::vector<P> v;
	for( long i=0; i<n; i++ ) v.push_back( pt( op ) );
	return v;
}
template<typename SG> void segSet( SG& s, long v, Op& op ) {
	auto x1 = op.c(), y1 = op.c(), x2 = op.c(), y2 = op.c();
	P a(x1,y1), b(x2,y2);
	switch( v ) {
		case 0: s.set( a, b ); break;
		case 1: s.set( x1,y1,x2,y2 ); break;
		case 2: s.set( std::make_pair(a,b) ); break;
		case 3: { SG n( a, b ); s = n; } break;
		case 4: { SG n( x1,y1,x2,y2 ); s = n; } break;
		default: { SG n( std::make_pair(a,b) ); s = n; }
	}
}
template<typename PL> void plSet( PL& pl, long v, const std::vector<P>& q ) {
	switch( v ) {
		case 0: pl.set( q ); break;
		case 1: pl.set( std::list<P>( q.begin(), q.end() ) ); break;
		case 2: { PL n( q ); pl = n; } break;
		case 3: { PL n( std::list<P>( q.begin(), q.end() ) ); pl = n; } break;
		default: if( q.size() != 3 ) throw Skip(); pl.set( std::array<P,3>{ q[0], q[1], q[2] } );
	}
}
template<typename PL> void plQuery( PL& pl, long k, long i, Op& op ) {
	const PL& c = pl;
	auto q = pt( op );
	switch( k ) {
		case 0: c.getPoint( i ); break;
		case 1: c.getSegment( i ); break;
		case 2: c.getOSegment( i ); break;
		case 3: c.getBB(); break;
		case 4: c.centroid(); break;
		case 5: pl.moveTo( q ); break;
		case 6: getBisectorLines( c ); break;
		case 7: getClosestPoints( c, w.op ); break;
		case 8: getClosestPoints( w.cp, c ); break;
		case 9: getTmPoint( c ); break;
		case 10: getBmPoint( c ); break;
		case 11: getLmPoint( c ); break;
		case 12: getRmPoint( c ); break;
		case 13: h2d::moveTo( pl, q ); break;
		default: h2d::getBB( c );
	}
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		w = World();
		thr::doNotCheckRadius() = false;
		w.s.set( 0, 0, g_scale, g_scale );
		w.o.set( 0, 0, g_scale, g_scale );
		w.c.set( P(0,0), g_scale );
		w.r.set( P(0,0), P(g_scale,g_scale) );
		count0 = err::errorCount();
		ev.add( "f", js( sizeof(FT) == 4 ) );
		dump( ev );
		return;
	}
	count0 = err::errorCount();
	guarded( ev, [&]{
		if( n == "pset" ) {
			auto v = op.i();
			double x = op.c(), y = op.c(), z = op.i();
			switch( v ) {
				case 0: w.p.set( x, y, z ); break;
				case 1: { P q( x, y, z ); w.p = q; } break;
				case 2: { P q( std::vector<double>{ x, y, z } ); w.p = q; } break;
				default: { P q( std::array<FT,3>{ (FT)x, (FT)y, (FT)z } ); w.p = q; }
			}
		}
		else if( n == "ppl" ) {
			auto v = op.i();
			auto a = pt(op), b = pt(op);
			if( a == b ) throw Skip();
			L l2( a, b );
			if( v == 0 ) w.p = w.l * l2; else if( v == 1 ) { P q( w.l, l2 ); w.p = q; } else { P q( l2, w.l ); w.p = q; }
		}
		else if( n == "lset" ) {
			auto v = op.i();
			double a = op.i(), b = op.i(), c = op.c();
			switch( v ) {
				case 0: w.l.set( a, b, c ); break;
				case 1: { L q( a, b, c ); w.l = q; } break;
				case 2: { L q( std::array<FT,3>{ (FT)a, (FT)b, (FT)c } ); w.l = q; } break;
				default: { L q( std::vector<float>{ (float)a, (float)b, (float)c } ); w.l = q; }
			}
		}
		else if( n == "lpp" ) {
			auto v = op.i();
			auto x1 = op.c(), y1 = op.c(), x2 = op.c(), y2 = op.c();
			switch( v ) {
				case 0: { L q( P(x1,y1), P(x2,y2) ); w.l = q; } break;
				case 1: { L q( x1,y1,x2,y2 ); w.l = q; } break;
				default: w.l = P(x1,y1) * P(x2,y2);
			}
		}
		else if( n == "lq" ) {
			auto k = op.i();
			auto x = op.c();
			auto a = pt(op), b = pt(op);
			const L& l = w.l;
			switch( k ) {
				case 0: l.getCoord( GivenCoord::X, x ); break;
				case 1: l.getCoord( GivenCoord::Y, x ); break;
				case 2: l.getPoint( GivenCoord::X, x ); break;
				case 3: l.getPoints( a, (FT)2 ); break;
				case 4: l.getRotatedLine( a, .5 ); break;
				case 5: l.getOrthogSegment( a ); break;
				case 6: { if( a == b ) throw Skip(); L m( a, b ); getParallelDistance( l, m ); } break;
				case 7: l.getOrthogLine( GivenCoord::Y, x ); break;
				case 8: { if( a == b ) throw Skip(); L m( a, b ); l.intersects( m ).get(); } break;
				case 9: l.length(); break;
				case 10: l.getPoints( GivenCoord::Y, x, (FT)1 ); break;
				default: { if( a == b ) throw Skip(); Segment_<FT> m( a, b ); m.intersects( l ).get(); }
			}
		}
		else if( n == "sset" ) { auto t = op.i(), v = op.i(); if( t == 0 ) segSet( w.s, v, op ); else segSet( w.o, v, op ); }
		else if( n == "sq" ) {
			auto k = op.i();
			auto d = op.c();
			auto a = pt(op), b = pt(op);
			switch( k ) {
				case 0: w.o.getPointAt( (FT)d ); break;
				case 1: w.o.split( (FT)d ); break;
				case 2: w.o.getParallelSegs( (FT)d ); break;
				case 3: w.s.getParallelSegs( (FT)d ); break;
				case 4: { if( a == b ) throw Skip(); Segment_<FT> m( a, b ); w.s.intersects( m ).get(); } break;
				default: { if( a == b ) throw Skip(); Segment_<FT> m( a, b ); w.o.intersects( m ).get(); }
			}
		}
		else if( n == "cset" ) {
			auto v = op.i();
			auto x = op.c(), y = op.c(), r = op.c();
			switch( v ) {
				case 0: w.c.set( r ); break;
				case 1: w.c.set( P(x,y), r ); break;
				case 2: w.c.set( x, y, r ); break;
				case 3: { Circle_<FT> q( P(x,y), r ); w.c = q; } break;
				case 4: { Circle_<FT> q( x, y, r ); w.c = q; } break;
				case 5: w.c.set( P(x,y) ); break;
				default: { Circle_<FT> q( r ); w.c = q; }
			}
		}
		else if( n == "c2p" ) {
			auto v = op.i();
			auto a = pt(op), b = pt(op);
			if( v == 0 ) w.c.set( a, b ); else if( v == 1 ) { Circle_<FT> q( a, b ); w.c = q; }
			else w.c.set( std::vector<P>{ a, b } );
		}
		else if( n == "c3p" ) {
			auto v = op.i();
			auto a = pt(op), b = pt(op), c = pt(op);
			if( v == 0 ) w.c.set( a, b, c ); else { Circle_<FT> q( a, b, c ); w.c = q; }
		}
		else if( n == "cct" ) {
			auto v = op.i();
			auto q = pts( op );
			if( v == 0 ) w.c.set( q ); else { Circle_<FT> n( q ); w.c = n; }
		}
		else if( n == "dnc" ) thr::doNotCheckRadius() = op.i();
		else if( n == "rset" ) {
			auto v = op.i();
			auto x1 = op.c(), y1 = op.c(), x2 = op.c(), y2 = op.c();
			P a(x1,y1), b(x2,y2);
			switch( v ) {
				case 0: w.r.set( a, b ); break;
				case 1: w.r.set( x1,y1,x2,y2 ); break;
				case 2: { FRect_<FT> q( a, b ); w.r = q; } break;
				case 3: { FRect_<FT> q( x1,y1,x2,y2 ); w.r = q; } break;
				default: { FRect_<FT> q( std::make_pair(a,b) ); w.r = q; }
			}
		}
		else if( n == "rwh" ) {
			auto a = pt(op);
			auto x = op.c(), y = op.c();
			FRect_<FT> q( a, x, y ); w.r = q;
		}
		else if( n == "rq" ) {
			auto k = op.i();
			auto a = pt(op), b = pt(op);
			if( a.getX() == b.getX() || a.getY() == b.getY() ) throw Skip();
			FRect_<FT> q( a, b );
			if( k == 0 ) w.r.intersectArea( q ).get(); else q.intersectArea( w.r ).get();
		}
		else if( n == "plset" ) {
			auto t = op.i(), v = op.i();
			auto q = pts( op );
			if( t == 0 ) plSet( w.cp, v, q ); else plSet( w.op, v, q );
		}
		else if( n == "plpar" ) { auto a = pt(op), b = pt(op), c = pt(op); w.cp.setParallelogram( a, b, c ); }
		else if( n == "plrcp" ) {
			auto v = op.i();
			auto r = op.c(); auto k = op.i();
			if( v == 0 ) w.cp.set( (FT)r, (int)k ); else { CPolyline_<FT> q( (FT)r, (long)k ); w.cp = q; }
		}
		else if( n == "plq" ) { auto t = op.i(), k = op.i(), i = op.i(); if( t == 0 ) plQuery( w.cp, k, i, op ); else plQuery( w.op, k, i, op ); }
		else if( n == "hset" ) {
			auto v = op.i();
			auto r = op.i(), c = op.i(); double x = op.i() * unit( r, c );
			if( v == 0 ) w.h.set( r, c, x ); else if( v == 1 ) w.h.value( r, c ) = x; else ((const Homogr_<FT>&)w.h).value( r, c );
		}
		else if( n == "hinv" ) w.h.inverse();
		else if( n == "hnrm" ) w.h.normalize();
		else if( n == "hvec" ) {
			auto r = op.i(), c = op.i(); double m = op.i();
			std::vector<std::vector<double>> x( r, std::vector<double>( c, 0. ) );
			for( long i=0; i<r && i<c; i++ ) x[i][i] = i == 2 ? m : 1;
			Homogr_<FT> q( x );
			w.h = q;
		}
		else if( n == "hpl" ) {     // an image that can not exist
			auto t = op.i();
			if( t == 0 ) { auto q = w.h * w.cp; w.cp = q; } else if( t == 1 ) { auto q = w.h * w.op; w.op = q; } else { auto q = w.h * w.s; w.s = q; }
		}
		else if( n == "fq" ) {
			auto k = op.i();
			auto q = pts( op );
			std::list<P> li( q.begin(), q.end() );
			switch( k ) {
				case 0: getBB( q ); break;
				case 1: getBB( li ); break;
				case 2: getTmPoint( q ); break;
				case 3: getBmPoint( li ); break;
				case 4: getLmPoint( q ); break;
				case 5: getRmPoint( li ); break;
				case 6: findNearestPoint( w.p, q ); break;
				case 7: findFarthestPoint( w.p, q ); break;
				case 8: findNearestFarthestPoint( w.p, q ); break;
				case 9: getBB( std::vector<Segment_<FT>>() ); break;
				case 10: getBB( std::vector<CPolyline_<FT>>{ w.cp } ); break;
				case 11: getBB( w.cp, w.op ); break;
				default: getBB( std::vector<FRect_<FT>>() );
			}
		}
		else if( n == "tan" ) {
			auto x = op.c(), y = op.c(), r = op.c();
			Circle_<FT> q( P(x,y), r );
			getTanSegs( w.c, q );
		}
		else if( n == "col" ) { auto a = op.i(), b = op.i(); img::genRandomColors( 3, a, b ); }
		else _exit(5);
	} );
	dump( ev );
}
int main( int c, char** v ) { return run( c, v, step ); }
