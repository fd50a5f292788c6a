// Interpreter for spec/Offset.tla
#include "vh.hpp"
#include <variant>
using namespace h2d;
using namespace vh;
using Cp = CPolyline_<FT>; using Op_ = OPolyline_<FT>; using P = Point2d_<FT>;
static std::variant<Cp,Op_> F;
static std::string m3( long double v ) { return js( fxs( v / g_scale, 1000 ) ); }
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { F = Cp(); return; }
	guarded( ev, [&]{
		if( n == "set" ) {
			long c = op.i(), k = op.i();
			std::vector<P> v; for( long i=0; i<k; i++ ) { auto x = op.c(), y = op.c(); v.push_back( P(x,y) ); }
			if( c ) F = Cp( v ); else F = Op_( v );
		}
		else if( n == "tr" ) { auto x = op.c(), y = op.c(); std::visit( [&]( auto& f ){ f.translate( x, y ); }, F ); }
		else if( n == "rot" ) { auto r = static_cast<Rotate>( op.i() ); std::visit( [&]( auto& f ){ f.rotate( r ); }, F ); }
		else if( n == "off" ) {
			long num = op.i(), den = op.i(), split = op.i();
			OffsetPolyParams pr; pr._angleSplit = split;
			Cp q;
			double d = (double)num / den * g_scale;
			std::visit( [&]( const auto& f ) {
				if( !split && den == 1 && g_scale == 1. ) q = f.getOffsetPoly( (int)num );
				else if( !split ) q = f.getOffsetPoly( d );
				else q = f.getOffsetPoly( d, pr ); }, F );
			ev.add( "fl", js( std::is_same_v<FT,float> || std::is_same_v<HOMOG2D_INUMTYPE,float> ) );
			ev.add( "v", jl( q.getPts() ) );
			std::string w; std::visit( [&]( const auto& f ){ w = jl( f.getPts() ); }, F );
			ev.add( "w", w );
		}
		else if( n == "rcp" ) {
			long r = op.i(), k = op.i(); int v = (int)op.i();
			std::pair<long double,long double> d;
			Cp q;
			if( v == 0 ) d = q.set( r * g_scale, k );
			else if( v == 1 ) { q.set( std::vector<P>{ P(0,0), P(1,0), P(2,5) } ); q.area(); q.isSimple(); d = q.set( (float)( r * g_scale ), (size_t)( k < 0 ? 0 : k ) ); }
			else { Cp q2( r * g_scale, (int)k ); q = q2; Cp q3; d = q3.set( (int)( r * g_scale ) == r * g_scale ? r * g_scale : r * g_scale, (short)k ); }
			std::string s = "[";
			for( const auto& p: q.getPts() ) s += ( s.size() > 1 ? ",[" : "[" ) + m3( p.getX() ) + "," + m3( p.getY() ) + "]";
			ev.add( "v", s + "]" ); ev.add( "d1", m3( d.first ) ); ev.add( "d2", m3( d.second ) );
		}
		else { std::fprintf( stderr, "unknown op %s\n", n.c_str() ); _exit(4); }
	});
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
