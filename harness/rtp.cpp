// Interpreter for spec/Rtp.tla: a list of objects of any kind, looked at directly, through the
// variant type, and through root-class pointers (two numeric types).
#define HOMOG2D_ENABLE_VRTP
#ifndef NO_PRTP
#define HOMOG2D_ENABLE_PRTP
#endif
#include "vh.hpp"
#include <memory>
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using CT = CommonType_<FT>;
static std::vector<CT> q;
static P pt( Op& op ) { auto x = op.c(), y = op.c(); return P(x,y); }
static CT fig( Op& op ) {
	auto k = op.i();
	switch( k ) {
		case 1: return pt(op);
		case 2: { auto a = pt(op), b = pt(op); return Line2d_<FT>( a, b ); }
		case 3: { auto a = pt(op), b = pt(op); return Segment_<FT>( a, b ); }
		case 4: { auto a = pt(op), b = pt(op); return OSegment_<FT>( a, b ); }
		case 5: { auto a = pt(op), b = pt(op); return FRect_<FT>( a, b ); }
		case 6: { auto a = pt(op); auto r = op.c(); return Circle_<FT>( a, r ); }
		case 9: { auto a = pt(op); auto x = op.c(), y = op.c(); return Ellipse_<FT>( a, x, y, 0. ); }
		default: {
			auto n = op.i();
			std::vector<P> v;
			for( long i=0; i<n; i++ ) v.push_back( pt(op) );
			if( k == 7 ) return CPolyline_<FT>( v );
			return OPolyline_<FT>( v );
		}
	}
}
static Homogr_<FT> mat( Op& op ) {
	double m[6];
	for( int i=0; i<6; i++ ) m[i] = i%3 == 2 ? op.c() : op.i();
	return Homogr_<FT>( std::vector<std::vector<double>>{ {m[0],m[1],m[2]}, {m[3],m[4],m[5]}, {0,0,1} } );
}
template<typename F> struct Same { template<typename T> using To = T; };
template<typename T> struct ToG;
template<typename F> struct ToG<Point2d_<F>>    { using type = Point2d_<GT>; };
template<typename F> struct ToG<Line2d_<F>>     { using type = Line2d_<GT>; };
template<typename F> struct ToG<Segment_<F>>    { using type = Segment_<GT>; };
template<typename F> struct ToG<OSegment_<F>>   { using type = OSegment_<GT>; };
template<typename F> struct ToG<FRect_<F>>      { using type = FRect_<GT>; };
template<typename F> struct ToG<Circle_<F>>     { using type = Circle_<GT>; };
template<typename F> struct ToG<Ellipse_<F>>    { using type = Ellipse_<GT>; };
template<typename F> struct ToG<CPolyline_<F>>  { using type = CPolyline_<GT>; };
template<typename F> struct ToG<OPolyline_<F>>  { using type = OPolyline_<GT>; };

// what identifies the object: points, and for round ones radii
static std::string ell( const Ellipse_<FT>& e ) {
	auto c = e.getCenter();
	auto m = e.getMajMin();
	return "[" + js(c) + ",[" + js(fx(m.first)) + "," + js(fx(m.second)) + "]]";
}
template<typename T> std::string val( const T& f ) {
	if constexpr( std::is_same_v<T,P> ) return "[" + js(f) + "]";
	else if constexpr( std::is_same_v<T,Line2d_<FT>> ) {
		auto a = f.get();
		return "[[" + js(fxs(a[0],1000)) + "," + js(fxs(a[1],1000)) + "," + js(fxs((long double)a[2]/g_scale,1000)) + "]]";
	}
	else if constexpr( std::is_same_v<T,Circle_<FT>> ) return "[" + js(f.center()) + ",[" + js(fx(f.radius())) + "]]";
	else if constexpr( std::is_same_v<T,Ellipse_<FT>> ) return ell( f );
	else if constexpr( std::is_same_v<T,CPolyline_<FT>> || std::is_same_v<T,OPolyline_<FT>> ) return jl( f.getPts() );
	else { auto p = f.getPts(); return jp( p.first, p.second ); }
}
static std::string look( const CT& v ) { return std::visit( []( const auto& f ) { return val( f ); }, v ); }
template<typename F> std::string ask( F f ) {        // a number, or the fact that it was refused
	try { return js( f() ); } catch( const std::exception& ) { return "-7777777"; }
}
template<typename F> std::string askBB( F f ) {
	try { return js( f() ); } catch( const std::exception& ) { return "[-7777777]"; }
}
template<typename F> std::string askRaw( F f ) {
	try { return f(); } catch( const std::exception& ) { return "[-7777777]"; }
}
static std::string list( std::initializer_list<std::string> l ) {
	std::string o = "[";
	for( const auto& e: l ) o += (o.size()>1?",":"") + e;
	return o + "]";
}
static void obs( Op& op, Ev& ev ) {
	long i = op.i();
	if( i >= (long)q.size() ) throw Skip();
	const CT& v = q[i];
	std::visit( [&]( const auto& f ) {
		using T = std::decay_t<decltype(f)>;
		using G = typename ToG<T>::type;
#ifndef NO_PRTP
		std::shared_ptr<rtp::Root> r = std::make_shared<T>( f ), g = std::make_shared<G>( f );
		std::unique_ptr<rtp::Root> u = std::make_unique<T>( f );
		std::ostringstream o1, o2, o3, o4;
		o1 << *r; o2 << "type=" << getString( f.type() ) << std::endl << f;
		o3 << *g; G gg( f ); o4 << "type=" << getString( gg.type() ) << std::endl << gg;
		ev.add( "txt", list({ js( o1.str() == o2.str() ), js( o3.str() == o4.str() ) }) );
#endif
		std::ostringstream s1, s2;
		s1 << f; std::visit( [&]( const auto& x ) { s2 << x; }, v );
		ev.add( "txv", js( s1.str() == s2.str() ) );
		ev.add( "t", list({ js( getString( f.type() ) ), js( getString( type(f) ) ), js( getString( type(v) ) ), js( getString( std::visit( fct::TypeFunct{}, v ) ) )
#ifndef NO_PRTP
			, js( getString( r->type() ) ), js( getString( g->type() ) ), js( getString( u->type() ) )
#endif
			}) );
		ev.add( "dt", list({ js( getString( f.dtype() ) ), js( getString( dtype(f) ) ), js( getString( dtype(v) ) ), js( getString( std::visit( fct::DTypeFunct{}, v ) ) ) }) );
		ev.add( "len", list({ ask([&]{ return fl( f.length() ); }), ask([&]{ return fl( length(f) ); }), ask([&]{ return fl( length(v) ); }), ask([&]{ return fl( std::visit( fct::LengthFunct{}, v ) ); })
#ifndef NO_PRTP
			, ask([&]{ return fl( r->length() ); }), ask([&]{ return fl( g->length() ); })
#endif
			}) );
		auto A = []( auto x ) { return fxs( (long double)x/g_scale/g_scale, 1000 ); };
		ev.add( "ar", list({ ask([&]{ return A( f.area() ); }), ask([&]{ return A( area(f) ); }), ask([&]{ return A( area(v) ); }), ask([&]{ return A( std::visit( fct::AreaFunct{}, v ) ); })
#ifndef NO_PRTP
			, ask([&]{ return A( r->area() ); }), ask([&]{ return A( g->area() ); })
#endif
			}) );
		ev.add( "sz", list({ ask([&]{ return (long)f.size(); }), ask([&]{ return (long)size(f); }), ask([&]{ return (long)size(v); }), ask([&]{ return (long)std::visit( fct::SizeFunct{}, v ); })
#ifndef NO_PRTP
			, ask([&]{ return (long)r->size(); }), ask([&]{ return (long)g->size(); })
#endif
			}) );
		ev.add( "bb", list({ askBB([&]{ return FRect_<FT>( f.getBB() ); }), askBB([&]{ return FRect_<FT>( std::visit( fct::BBFunct{}, v ) ); }) }) );
		ev.add( "pp", askRaw([&]{ auto p = std::visit( fct::PtPairFunct{}, v ); return "[" + js(fx(p.first.getX())) + "," + js(fx(p.first.getY())) + "," + js(fx(p.second.getX())) + "," + js(fx(p.second.getY())) + "]"; }) );
		ev.add( "v", val( f ) );
	}, v );
}
template<typename T> void unwrapTo( const CT& v, Ev& ev, long how ) {
	query( ev, "x", [&]{
		if( how == 0 ) { T c = fct::VariantUnwrapper{ v }; return val( c ); }
		T c = std::get<T>( v );
		return val( c );
	} );
}
#ifndef NO_PRTP
template<template<typename> class K> std::string castTo( const rtp::Root* r ) {
	return list({ js( dynamic_cast<const K<FT>*>( r ) != nullptr ), js( dynamic_cast<const K<GT>*>( r ) != nullptr ) });
}
#endif
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		q.clear();
		ev.add( "f", js( sizeof(FT) == 4 ) );
		ev.add( "dt", list({ js( sizeof(FT) == 4 ? "Float" : sizeof(FT) == 8 ? "Double" : "LongDouble" ) }) );
		return;
	}
	guarded( ev, [&]{
		auto at = [&]( long i ) -> CT& { if( i >= (long)q.size() ) throw Skip(); return q[i]; };
		if( n == "push" ) {
			auto v = op.i();
			auto f = fig( op );
			if( v == 0 ) q.push_back( f );
			else if( v == 1 ) std::visit( [&]( const auto& x ) { q.emplace_back( x ); }, f );
			else { CT y( P(1,2) ); y = f; CT z = std::move( y ); q.emplace_back( std::move( z ) ); }
			ev.add( "v", look( q.back() ) );
		}
		else if( n == "set" ) {
			auto i = op.i(), v = op.i();
			auto f = fig( op );
			auto& x = at( i );
			if( v == 0 ) x = f; else std::visit( [&]( const auto& y ) { x = y; }, f );
			ev.add( "v", look( x ) );
		}
		else if( n == "asg" ) { auto i = op.i(), j = op.i(); auto& x = at( i ); x = at( j ); ev.add( "v", look( x ) ); }
		else if( n == "swp" ) { auto i = op.i(), j = op.i(); auto& x = at( i ); std::swap( x, at( j ) ); ev.add( "v", look( x ) ); }
		else if( n == "pop" ) { if( q.empty() ) throw Skip(); q.erase( q.begin() ); }
		else if( n == "tra" ) {
			auto i = op.i(), w = op.i();
			auto h = mat( op );
			auto& x = at( i );
			if( w == 0 ) x = transform( h, x );
			else if( w == 1 ) { fct::TransformFunct<FT> t( h ); x = std::visit( t, x ); }
			else if( w == 2 ) { CT y = std::visit( [&]( const auto& f ) { return CT{ h * f }; }, x ); x = y; }
			else { CT y = std::visit( [&]( const auto& f ) { return transform( h, f ); }, x ); x = y; }
			ev.add( "v", look( x ) );
		}
		else if( n == "tall" ) {
			auto h = mat( op );
			for( auto& e: q ) e = transform( h, e );
		}
		else if( n == "obs" ) obs( op, ev );
		else if( n == "unw" ) {
			auto i = op.i(), k = op.i(), w = op.i();
			const auto& x = at( i );
			switch( k ) {
				case 1: unwrapTo<P>( x, ev, w ); break;
				case 2: unwrapTo<Line2d_<FT>>( x, ev, w ); break;
				case 3: unwrapTo<Segment_<FT>>( x, ev, w ); break;
				case 4: unwrapTo<OSegment_<FT>>( x, ev, w ); break;
				case 5: unwrapTo<FRect_<FT>>( x, ev, w ); break;
				case 6: unwrapTo<Circle_<FT>>( x, ev, w ); break;
				case 7: unwrapTo<CPolyline_<FT>>( x, ev, w ); break;
				case 8: unwrapTo<OPolyline_<FT>>( x, ev, w ); break;
				default: unwrapTo<Ellipse_<FT>>( x, ev, w );
			}
		}
#ifndef NO_PRTP
		else if( n == "cast" ) {
			auto i = op.i(), k = op.i(), g = op.i();
			const auto& x = at( i );
			std::shared_ptr<rtp::Root> r;
			std::visit( [&]( const auto& f ) { using T = std::decay_t<decltype(f)>; if( g ) r = std::make_shared<typename ToG<T>::type>( f ); else r = std::make_shared<T>( f ); }, x );
			std::string s;
			switch( k ) {
				case 1: s = castTo<Point2d_>( r.get() ); break;
				case 2: s = castTo<Line2d_>( r.get() ); break;
				case 3: s = castTo<Segment_>( r.get() ); break;
				case 4: s = castTo<OSegment_>( r.get() ); break;
				case 5: s = castTo<FRect_>( r.get() ); break;
				case 6: s = castTo<Circle_>( r.get() ); break;
				case 7: s = castTo<CPolyline_>( r.get() ); break;
				case 8: s = castTo<OPolyline_>( r.get() ); break;
				default: s = castTo<Ellipse_>( r.get() );
			}
			ev.add( "x", s );
		}
#endif
		else if( n == "bbn" ) {
			std::vector<CT> w;
			if( !op.more() ) w = q;
			while( op.more() ) w.push_back( at( op.i() ) );
			query( ev, "bb", [&]{ return js( FRect_<FT>( getBB( w ) ) ); } );
		}
		else if( n == "drw" ) {
			auto v = op.i();
			img::DrawParams dp;
			if( v % 2 ) dp.setColor( 10, 20, 30 ).setThickness( 3 ).showPoints();
			img::Image<img::SvgImage> a( 600, 600 ), b( 600, 600 ), c( 600, 600 ), d( 600, 600 );
			draw( a, q, dp );
			for( const auto& e: q ) std::visit( [&]( const auto& f ) { f.draw( b, dp ); }, e );
			fct::DrawFunct vde( c, dp );
			for( const auto& e: q ) std::visit( vde, e );
#ifndef NO_PRTP
			std::vector<std::shared_ptr<rtp::Root>> r;
			for( const auto& e: q ) std::visit( [&]( const auto& f ) { using T = std::decay_t<decltype(f)>; r.push_back( std::make_shared<T>( f ) ); }, e );
			for( const auto& e: r ) e->draw( d, dp );
#else
			for( const auto& e: q ) std::visit( [&]( const auto& f ) { f.draw( d, dp ); }, e );
#endif
			auto str = []( img::Image<img::SvgImage>& im ) { std::ostringstream o; o << im; return o.str(); };
			auto sb = str( b );
			ev.add( "same", list({ js( str(a) == sb ), js( str(c) == sb ), js( str(d) == sb ) }) );
			long ne = 0;
			for( const char* t: { "<line ", "<circle ", "<ellipse ", "<rect ", "<polyline ", "<polygon " } )
				for( size_t p = sb.find( t ); p != std::string::npos; p = sb.find( t, p+1 ) ) ne++;
			ev.add( "ne", js( ne ) );
		}
		else _exit(5);
	} );
}
int main( int c, char** v ) { return run( c, v, step ); }
