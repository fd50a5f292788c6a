// Interpreter for spec/Print.tla: objects of every kind are printed on a stream of the caller's.
#include "vh.hpp"
#include <iomanip>
#include <optional>
#include <variant>
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using Any = std::variant<P,Line2d_<FT>,Segment_<FT>,OSegment_<FT>,Circle_<FT>,FRect_<FT>,Ellipse_<FT>,CPolyline_<FT>,OPolyline_<FT>,Homogr_<FT>>;
static std::optional<Any> ob[5];
static double q( Op& op ) { return op.i() / 4. * g_scale; }
static P qp( Op& op ) { FT x = q( op ), y = q( op ); return P( x, y ); }
static long h( long double v ) { return fxs( v, 1000 ); }
// the numbers of a text, in order; a minus between two values is a separator, digits of a word are not numbers
static std::string numbers( const std::string& s ) {
	std::string o;
	size_t k = 0;
	while( k < s.size() ) {
		auto c = s[k];
		if( std::isalpha( (unsigned char)c ) && !( s.compare( k, 3, "nan" ) == 0 || s.compare( k, 3, "inf" ) == 0 ) ) { while( k < s.size() && ( std::isalnum( (unsigned char)s[k] ) || s[k] == '_' ) ) k++; continue; }
		bool num = std::isdigit( (unsigned char)c ) || c == 'n' || c == 'i' || ( ( c == '-' || c == '.' ) && k + 1 < s.size() && ( std::isdigit( (unsigned char)s[k+1] ) || s[k+1] == '.' ) && !( c == '-' && k > 0 && std::isdigit( (unsigned char)s[k-1] ) ) );
		if( !num ) { k++; continue; }
		char* e; auto v = std::strtold( s.c_str() + k, &e );
		if( e == s.c_str() + k ) { k++; continue; }
		o += ( o.empty() ? "" : "," ) + js( h( v ) );
		k = e - s.c_str();
	}
	return "[" + o + "]";
}
static std::string jn( const std::vector<long double>& v ) { std::string o; for( auto e: v ) o += ( o.empty() ? "" : "," ) + js( h( e ) ); return "[" + o + "]"; }
static void add( std::vector<long double>& v, const P& p ) {
	if( p.isInf() ) { auto a = p.get(); for( auto e: a ) v.push_back( e ); }
	else { v.push_back( p.getX() ); v.push_back( p.getY() ); }
}
template<typename T> std::vector<long double> obs( const T& o ) {
	std::vector<long double> v;
	if constexpr( std::is_same_v<T,P> ) add( v, o );
	else if constexpr( std::is_same_v<T,Line2d_<FT>> ) { auto a = o.get(); for( auto e: a ) v.push_back( e ); }
	else if constexpr( std::is_same_v<T,Segment_<FT>> || std::is_same_v<T,OSegment_<FT>> || std::is_same_v<T,FRect_<FT>> ) { auto p = o.getPts(); add( v, p.first ); add( v, p.second ); }
	else if constexpr( std::is_same_v<T,Circle_<FT>> ) { add( v, o.center() ); v.push_back( o.radius() ); }
	else if constexpr( std::is_same_v<T,Ellipse_<FT>> ) { auto c = o.getCenter(); v.push_back( c.getX() ); v.push_back( c.getY() ); v.push_back( o.angle() * 180. / M_PI ); auto m = o.getMajMin(); v.push_back( m.first ); v.push_back( m.second ); }
	else if constexpr( std::is_same_v<T,Homogr_<FT>> ) { for( int r=0; r<3; r++ ) for( int c=0; c<3; c++ ) v.push_back( o.value( r, c ) ); }
	else for( const auto& p: o.getPts() ) add( v, p );
	return v;
}
template<typename T> void print( Ev& ev, long prec, long how, const T& o ) {
	std::ostringstream f, other;
	if( prec ) f << std::setprecision( prec );
	if( how == 1 ) f << std::scientific;
	if( how == 2 ) f << std::fixed;
	auto fl = f.flags(); auto pr = f.precision(); auto wi = f.width();
	auto b = std::cout.rdbuf( other.rdbuf() ); auto st = std::cout.rdstate(); std::cout.clear();
	bool same = false;
	try { same = &( f << o ) == &f; } catch( ... ) { std::cout.rdbuf( b ); std::cout.clear( st ); throw; }
	std::cout.rdbuf( b ); std::cout.clear( st );
	ev.add( "n", numbers( f.str() ) );
	ev.add( "same", js( same ) );
	ev.add( "quiet", js( other.str().empty() ) );
	ev.add( "fmt", js( f.flags() == fl && f.precision() == pr && f.width() == wi && f.good() ) );
}
template<typename C> void cont( Ev& ev, long prec, long how, const C& c ) {
	std::vector<long double> v; v.push_back( c.size() );
	for( const auto& e: c ) for( auto x: obs( e ) ) v.push_back( x );
	print( ev, prec, how, c );
	ev.add( "v", jn( v ) );
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { for( auto& o: ob ) o.reset(); return; }
	guarded( ev, [&]{
		auto s = op.i();
		if( n == "mk" ) {
			auto k = op.i();
			switch( k ) {
				case 1: ob[s] = qp( op ); break;
				case 2: { auto a = qp( op ), b = qp( op ); ob[s] = Line2d_<FT>( a, b ); } break;
				case 3: { auto a = qp( op ), b = qp( op ); ob[s] = Segment_<FT>( a, b ); } break;
				case 4: { auto a = qp( op ), b = qp( op ); ob[s] = OSegment_<FT>( a, b ); } break;
				case 5: { auto a = qp( op ); FT r = q( op ); ob[s] = Circle_<FT>( a, r ); } break;
				case 6: { auto a = qp( op ), b = qp( op ); ob[s] = FRect_<FT>( a, b ); } break;
				case 7: { FT x = q( op ), y = q( op ), a = q( op ), b = q( op ), t = op.i() * M_PI / 4.; ob[s] = Ellipse_<FT>( x, y, a, b, t ); } break;
				case 8: case 9: { std::vector<P> v; while( op.more() ) v.push_back( qp( op ) ); if( k == 8 ) { CPolyline_<FT> p; p.set( v ); ob[s] = p; } else { OPolyline_<FT> p; p.set( v ); ob[s] = p; } } break;
				case 10: { Homogr_<FT> m; FT x = q( op ), y = q( op ), a = q( op ), b = q( op ); m.addScale( a, b ); m.addTranslation( x, y ); ob[s] = m; } break;
				case 11: ob[s] = CPolyline_<FT>(); break;
				case 12: ob[s] = OPolyline_<FT>(); break;
				case 13: { auto a = qp( op ); ob[s] = P( std::vector<FT>{ (FT)a.getX(), (FT)a.getY(), (FT)0 } ); } break;
			}
			return;
		}
		if( !ob[s] ) throw Skip{};
		if( n == "mv" ) {
			FT x = q( op ), y = q( op );
			std::visit( [&]( auto& o ) { using T = std::decay_t<decltype(o)>; if constexpr( std::is_same_v<T,Line2d_<FT>> ) throw Skip{}; else if constexpr( std::is_same_v<T,Homogr_<FT>> ) o.addTranslation( x, y ); else if constexpr( std::is_same_v<T,P> ) { if( o.isInf() ) throw Skip{}; o.translate( x, y ); } else o.translate( x, y ); }, *ob[s] );
		}
		else if( n == "cmp" ) {          // comparing, which must not matter
			auto t = op.i();
			if( !ob[t] || ob[t]->index() != ob[s]->index() ) throw Skip{};
			std::visit( [&]( auto& o ) { using T = std::decay_t<decltype(o)>; ev.add( "eq", js( o == std::get<T>( *ob[t] ) ) ); }, *ob[s] );
		}
		else if( n == "prn" ) {
			auto prec = op.i(), how = op.i(), via = op.i();
			std::visit( [&]( const auto& o ) {
				using T = std::decay_t<decltype(o)>;
				ev.add( "v", jn( obs( o ) ) );
#ifdef HOMOG2D_ENABLE_PRTP
				if constexpr( !std::is_same_v<T,Homogr_<FT>> ) { if( via == 1 ) { const rtp::Root& r = o; print( ev, prec, how, r ); } else print( ev, prec, how, o ); } else
#endif
				{ (void)via; print( ev, prec, how, o ); }
				ev.add( "w", jn( obs( o ) ) );
			}, *ob[s] );
		}
		else if( n == "lst" ) {          // container of objects of the kind of slot s
			auto prec = op.i(), how = op.i(), c = op.i(), cnt = op.i();
			std::visit( [&]( const auto& o ) {
				using T = std::decay_t<decltype(o)>;
				if constexpr( std::is_same_v<T,Homogr_<FT>> ) throw Skip{};
				else {
					std::vector<T> v;
					for( int j=0; j<cnt; j++ ) for( int t=0; t<5; t++ ) if( ob[t] && std::holds_alternative<T>( *ob[t] ) ) v.push_back( std::get<T>( *ob[t] ) );
					if( c == 0 ) cont( ev, prec, how, v );
					else if( c == 1 ) cont( ev, prec, how, std::list<T>( v.begin(), v.end() ) );
					else { std::array<T,2> a{ o, o }; cont( ev, prec, how, a ); }
				}
			}, *ob[s] );
		}
		else if( n == "par" ) {          // pair of points or lines
			auto prec = op.i(), how = op.i(), t = op.i();
			if( !ob[t] ) throw Skip{};
			auto f = [&]( const auto& a, const auto& b ) { auto p = std::make_pair( a, b ); auto v = obs( a ); for( auto x: obs( b ) ) v.push_back( x ); print( ev, prec, how, p ); ev.add( "v", jn( v ) ); };
			if( std::holds_alternative<P>( *ob[s] ) && std::holds_alternative<P>( *ob[t] ) ) f( std::get<P>( *ob[s] ), std::get<P>( *ob[t] ) );
			else if( std::holds_alternative<Line2d_<FT>>( *ob[s] ) && std::holds_alternative<Line2d_<FT>>( *ob[t] ) ) f( std::get<Line2d_<FT>>( *ob[s] ), std::get<Line2d_<FT>>( *ob[t] ) );
			else throw Skip{};
		}
		else if( n == "itx" ) {          // result of an intersection
			auto prec = op.i(), how = op.i(), t = op.i();
			if( !ob[t] ) throw Skip{};
			std::visit( [&]( const auto& a, const auto& b ) {
				using T = std::decay_t<decltype(a)>; using U = std::decay_t<decltype(b)>;
				constexpr bool full = ( std::is_same_v<T,FRect_<FT>> || std::is_same_v<T,CPolyline_<FT>> || std::is_same_v<T,OPolyline_<FT>> || std::is_same_v<T,Circle_<FT>> ) && ( std::is_same_v<U,FRect_<FT>> || std::is_same_v<U,CPolyline_<FT>> || std::is_same_v<U,OPolyline_<FT>> || std::is_same_v<U,Circle_<FT>> || std::is_same_v<U,Segment_<FT>> );
				constexpr bool lc = std::is_same_v<T,Line2d_<FT>> && std::is_same_v<U,Circle_<FT>>;
				if constexpr( full ) {
					auto r = a.intersects( b );
					print( ev, prec, how, r );
					std::vector<long double> v; v.push_back( r.size() ); for( const auto& p: r.get() ) add( v, p );
					ev.add( "v", jn( v ) ); ev.add( "set", "true" );
				}
				else if constexpr( lc ) {
					auto r = a.intersects( b );
					print( ev, prec, how, r );
					std::vector<long double> v; v.push_back( r() ? 1 : 0 ); if( r() ) { auto p = r.get(); add( v, p.first ); add( v, p.second ); }
					ev.add( "v", jn( v ) ); ev.add( "set", "false" );
				}
				else throw Skip{};
			}, *ob[s], *ob[t] );
		}
		else if( n == "dpr" ) {          // drawing settings
			auto prec = op.i(), how = op.i(); auto w = op.i(), z = op.i(), f = op.i(), r = op.i(), g = op.i(), b = op.i(), p = op.i();
			img::DrawParams dp;
			dp.setColor( r, g, b ).setThickness( w ).setPointSize( z ).setFontSize( f ).showPoints( p != 0 );
			print( ev, prec, how, dp );
			(void)s;
		}
		else { std::fprintf( stderr, "unknown op %s\n", n.c_str() ); _exit(4); }
	});
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
