// Interpreter for spec/Tol.tla: the tolerances are set, saved and restored at run time, and figures
// are submitted to the decisions that depend on them.
#include "vh.hpp"
#include <list>
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using L = Line2d_<FT>;
using Sg = Segment_<FT>;
using Os = OSegment_<FT>;
static const HOMOG2D_INUMTYPE tiny[6] = { 0, 1E-10, 1E-14, 0.001, 1E-10, 1E-15 };
static HOMOG2D_INUMTYPE& thr_( long k ) {
	switch( k ) {
		case 1: return thr::nullDistance();
		case 2: return thr::nullOrthogDistance();
		case 3: return thr::nullAngleValue();
		case 4: return thr::nullDenom();
		default: return thr::nullDeter();
	}
}
static HOMOG2D_INUMTYPE toVal( long k, long v ) {
	if( v == 0 ) return tiny[k];
	return k == 3 ? std::atan( (HOMOG2D_INUMTYPE)v/16 ) : (HOMOG2D_INUMTYPE)v/16;
}
static long toInt( long k, HOMOG2D_INUMTYPE v ) {
	if( std::fabs( v - tiny[k] ) <= 1e-6*tiny[k] ) return 0;
	HOMOG2D_INUMTYPE w = ( k == 3 ? std::tan(v) : v ) * 16;
	return std::fabs( w - std::round(w) ) < 1e-4 && std::round(w) != 0 ? std::lround( w ) : BAD;
}
static std::string all() {
	std::string s = "[";
	for( int k=1; k<=5; k++ ) s += (k>1?",":"") + js( toInt( k, thr_(k) ) );
	return s + "]";
}
static HOMOG2D_INUMTYPE df[6], sv[6];
static P pt( Op& op ) { auto x = op.c(), y = op.c(); return P(x,y); }
static std::vector<P> ptsn( Op& op, long n ) { std::vector<P> v; for( long i=0; i<n; i++ ) v.push_back( pt(op) ); return v; }
static Homogr_<FT> mat( const std::vector<double>& m ) {
	std::vector<std::vector<FT>> v( 3, std::vector<FT>(3) );
	for( int i=0; i<9; i++ ) v[i/3][i%3] = (FT)m[i];
	return Homogr_<FT>( v );
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	guarded( ev, [&] {
		if( n == "begin" ) {
			for( int k=1; k<=5; k++ ) { thr_(k) = sv[k] = df[k]; }
			thr::doNotCheckRadius() = false;
			ev.add( "df", all() );
			ev.add( "fl", js( std::is_same<FT,float>::value ) );
		}
		else if( n == "set" ) { auto k = op.i(); auto v = op.i(); thr_(k) = toVal( k, v ); }
		else if( n == "save" ) { auto k = op.i(); sv[k] = thr_(k); }
		else if( n == "restore" ) { auto k = op.i(); thr_(k) = sv[k]; }
		else if( n == "pr" ) {
			std::ostringstream ss;
			ss << std::scientific;
			ss.precision( 12 );
			thr::printThresholds( ss );
			auto s = ss.str();
			std::string o = "[";
			const char* names[] = { "nullDistance", "nullOrthogDistance", "nullAngleValue", "nullDenom", "nullDeter" };
			for( int k=1; k<=5; k++ ) {
				auto p = s.find( std::string("-") + names[k-1] + "()=" );
				o += (k>1?",":"") + js( p == std::string::npos ? BAD : toInt( k, std::strtod( s.c_str() + p + std::strlen(names[k-1]) + 4, nullptr ) ) );
			}
			ev.add( "v", o + "]" );
		}
		else if( n == "eq" ) {
			auto p = pt(op), q = pt(op);
			bool b1 = p==q, b2 = q==p, b3 = p!=q;
			ev.add( "b", "[" + js(b1) + "," + js(b2) + "," + js(b3) + "]" );
		}
		else if( n == "ln" ) {
			auto v = op.i(); auto p = pt(op), q = pt(op);
			L l;
			switch( v ) {
				case 0: l = p * q; break;
				case 1: l = L( p, q ); break;
				case 2: l = Sg( p, q ).getLine(); break;
				default: l = Os( p, q ).getLine(); break;
			}
			auto d1 = l.distTo(p), d2 = l.distTo(q);
			ev.add( "d", "[" + js(fx(d1)) + "," + js(fx(d2)) + "]" );
		}
		else if( n == "sg" ) {
			auto v = op.i(); auto p = pt(op), q = pt(op);
			HOMOG2D_INUMTYPE d = 0;
			switch( v ) {
				case 0: d = Sg( p, q ).length(); break;
				case 1: d = Os( p, q ).length(); break;
				case 2: { Sg s( P(-100,-100), P(200,100) ); s.set( p, q ); d = s.length(); } break;
				case 3: d = Sg( p.getX(), p.getY(), q.getX(), q.getY() ).length(); break;
				default: { Os s( P(-100,-100), P(200,100) ); s.set( std::make_pair(p,q) ); d = s.length(); }
			}
			ev.add( "d", js(fl(d)) );
		}
		else if( n == "pl" ) {
			auto v = op.i(); auto k = op.i();
			auto w = ptsn( op, k );
			size_t d;
			switch( v ) {
				case 0: d = OPolyline_<FT>( w ).size(); break;
				case 1: d = CPolyline_<FT>( w ).size(); break;
				case 2: { OPolyline_<FT> o; o.set( w ); d = o.size(); } break;
				default: { CPolyline_<FT> o; o.set( std::list<P>(w.begin(),w.end()) ); d = o.size(); }
			}
			ev.add( "d", js((long)d) );
		}
		else if( n == "ci" ) {
			auto v = op.i(); auto p = pt(op); auto k = op.i();
			double r = k/16. * g_scale;
			HOMOG2D_INUMTYPE d = 0;
			switch( v ) {
				case 0: d = Circle_<FT>( p, (FT)r ).radius(); break;
				case 1: d = Circle_<FT>( p.getX(), p.getY(), (HOMOG2D_INUMTYPE)r ).radius(); break;
				case 2: { Circle_<FT> c( P(-100,-100), 50 ); c.set( r ); d = c.radius(); } break;
				case 3: { Circle_<FT> c( P(-100,-100), 50 ); c.set( p, r ); d = c.radius(); } break;
				default: d = Circle_<FT>( p, P( p.getX() + k*g_scale, p.getY() ) ).radius();
			}
			ev.add( "d", js(fx(d)) );
		}
		else if( n == "c3" ) { auto p = pt(op), q = pt(op), s = pt(op); Circle_<FT> c( p, q, s ); (void)c; }
		else if( n == "col" ) { auto p = pt(op), q = pt(op), s = pt(op); bool b = areCollinear( p, q, s ); ev.add( "b", js(b) ); }
		else if( n == "lab" ) {
			auto p = pt(op), q = pt(op); Circle_<FT> c( q, op.c() );
			auto t = detail::getPtLabel( p, c );
			ev.add( "d", js( t == detail::PtTag::Inside ? 0 : t == detail::PtTag::Outside ? 1 : 2 ) );
		}
		else if( n == "side" || n == "gp" || n == "os" || n == "cd" ) {
			auto p = pt(op), q = pt(op);
			L l = p * q;
			if( n == "side" ) { auto z = pt(op); ev.add( "d", js( side( z, l ) ) ); }
			else if( n == "gp" ) { auto z = pt(op); auto r = l.getPoints( z, op.c() ); auto d1 = r.first.distTo(z), d2 = r.second.distTo(z); ev.add( "d", "[" + js(fx(d1)) + "," + js(fx(d2)) + "]" ); }
			else if( n == "os" ) { auto z = pt(op); auto r = l.getOrthogSegment( z ).getPts(); ev.add( "p", js(r.first) ); ev.add( "q", js(r.second) ); }
			else { auto g = op.i(); auto v = op.c(); auto d = l.getCoord( g ? GivenCoord::Y : GivenCoord::X, v ); ev.add( "d", js(fx(d)) ); }
		}
		else if( n == "leq" || n == "par" || n == "it" ) {
			auto v = op.i(); auto p = pt(op), q = pt(op), s = pt(op), t = pt(op);
			if( n == "leq" ) { auto l1 = p*q, l2 = s*t; bool b = v ? l2 == l1 : l1 == l2; if( b == (l1 != l2) ) std::abort(); ev.add( "b", js(b) ); }
			else if( n == "par" ) {
				bool b;
				switch( v ) {
					case 0: b = (p*q).isParallelTo( s*t ); break;
					case 1: b = Sg(p,q).isParallelTo( Sg(s,t) ); break;
					case 2: b = (p*q).isParallelTo( Sg(s,t) ); break;
					case 3: b = Sg(p,q).isParallelTo( s*t ); break;
					case 4: b = areParallel( Sg(p,q), Sg(s,t) ); break;
					default: b = Os(p,q).isParallelTo( s*t ); break;
				}
				ev.add( "b", js(b) );
			}
			else if( v == 3 ) { auto r = (p*q).intersects( s*t ); ev.add( "b", js( r() ) ); }
			else {
				P z;
				switch( v ) {
					case 0: z = (p*q) * (s*t); break;
					case 1: z = P( p*q, s*t ); break;
					default: z = Sg(p,q) * Sg(s,t); break;
				}
				ev.add( "p", js(z) );
			}
		}
		else if( n == "hc" || n == "inv" ) {
			std::vector<double> m;
			for( int i=0; i<8; i++ ) m.push_back( op.i() );
			m.push_back( n == "hc" ? op.i()/16. : 1. );
			auto h = mat( m );
			if( n == "inv" ) {
				auto g = h; g.inverse();
				// the product by the inverse is the identity, whatever the tolerances
				bool ok = true;
				double pr[9], w = 0;
				for( int i=0; i<9; i++ ) { pr[i] = 0; for( int k=0; k<3; k++ ) pr[i] += (double)m[3*(i/3)+k] * g.value(k,i%3); }
				w = pr[8];
				for( int i=0; i<9; i++ ) if( std::fabs( pr[i] - (i%4==0 ? w : 0.) ) > 1e-3*std::max(1.,std::fabs(w)) ) ok = false;
				ev.add( "b", js( ok && std::fabs(w) > 1e-6 ) );
			}
		}
		else if( n == "heq" ) {
			std::vector<double> m, k;
			for( int i=0; i<8; i++ ) m.push_back( op.i() );
			m.push_back( 1. );
			(void)op.i();
			k = m;
			for( int i=0; i<8; i++ ) k[i] += op.i()/16.;
			auto h = mat( m ), g = mat( k );
			bool b = h == g;
			if( b != !(h != g) || b != (g == h) ) std::abort();
			ev.add( "b", js(b) );
		}
		else if( n == "inf" ) {
			auto x = op.i(), y = op.i(), w = op.i();
			P p; p.set( (FT)x, (FT)y, (FT)(w/16.) );
			bool b = p.isInf();
			ev.add( "b", js(b) );
		}
		else if( n == "rc" ) {
			auto v = op.i(); auto p = pt(op), q = pt(op);
			FRect_<FT> r;
			switch( v ) {
				case 0: r = FRect_<FT>( p, q ); break;
				case 1: r = FRect_<FT>( p.getX(), p.getY(), q.getX(), q.getY() ); break;
				case 2: r.set( p, q ); break;
				default: r = FRect_<FT>( std::make_pair( q, p ) );
			}
			ev.add( "d", js(r) );
		}
		else if( n == "bb" ) { auto w = ptsn( op, op.i() ); ev.add( "d", js( getBB( w ) ) ); }
		else if( n == "min" ) {
			auto v = op.i(); auto k = op.i(); auto w = ptsn( op, k );
			if( v ) { CPolyline_<FT> c( w ); c.minimize(); ev.add( "p", jl( c.getPts() ) ); }
			else { OPolyline_<FT> c( w ); c.minimize(); ev.add( "p", jl( c.getPts() ) ); }
		}
		else if( n == "pip" ) {
			auto k = op.i(); auto z = pt(op); auto w = ptsn( op, k );
			CPolyline_<FT> c( w );
			bool b = z.isInside( c );
			ev.add( "b", js(b) );
		}
		else throw Skip();
	} );
	ev.add( "th", all() );
	ev.add( "nr", js( thr::doNotCheckRadius() ) );
}
int main( int argc, char** argv ) {
	for( int k=1; k<=5; k++ ) df[k] = thr_(k);        // as the build has set them
	return run( argc, argv, step );
}
