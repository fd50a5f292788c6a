// Interpreter for spec/World.tla: six slots holding primitives of any kind.
// Families of queries are selected at compile time (Q_INS, Q_ITX, Q_DST, Q_BB, Q_RECT) to keep the build short.
#ifdef Q_BB
#define HOMOG2D_ENABLE_VRTP
#endif
#include "vh.hpp"
#include <variant>
using namespace h2d;
using namespace vh;

using P  = Point2d_<FT>;   using L  = Line2d_<FT>;   using Sg = Segment_<FT>;   using Os = OSegment_<FT>;
using R  = FRect_<FT>;     using Ci = Circle_<FT>;   using Cp = CPolyline_<FT>; using Op_ = OPolyline_<FT>;
using Var = std::variant<std::monostate,P,L,Sg,Os,R,Ci,Cp,Op_>;
static Var S[8];

template<typename T> struct Other;
template<typename F> struct Other<Point2d_<F>>    { using type = Point2d_<GT>; };
template<typename F> struct Other<Line2d_<F>>     { using type = Line2d_<GT>; };
template<typename F> struct Other<Segment_<F>>    { using type = Segment_<GT>; };
template<typename F> struct Other<OSegment_<F>>   { using type = OSegment_<GT>; };
template<typename F> struct Other<FRect_<F>>      { using type = FRect_<GT>; };
template<typename F> struct Other<Circle_<F>>     { using type = Circle_<GT>; };
template<typename F> struct Other<CPolyline_<F>>  { using type = CPolyline_<GT>; };
template<typename F> struct Other<OPolyline_<F>>  { using type = OPolyline_<GT>; };
template<typename T> using OtherT = typename Other<T>::type;
template<typename T> constexpr bool none = std::is_same_v<T,std::monostate>;
template<typename T> constexpr bool isPt = std::is_same_v<T,P>;
template<typename T> constexpr bool isLine = std::is_same_v<T,L>;
template<typename T> constexpr bool isSeg = std::is_same_v<T,Sg> || std::is_same_v<T,Os>;
template<typename T> constexpr bool isRect = std::is_same_v<T,R>;
template<typename T> constexpr bool isCirc = std::is_same_v<T,Ci>;
template<typename T> constexpr bool isPoly = std::is_same_v<T,Cp> || std::is_same_v<T,Op_>;

static std::vector<P> readPts( Op& op ) {
	long n = op.i();
	std::vector<P> v;
	for( long k=0; k<n; k++ ) { auto x = op.c(); auto y = op.c(); v.push_back( P(x,y) ); }
	return v;
}
static std::string valOf( int s ) {
	return std::visit( []( const auto& f ) -> std::string {
		using T = std::decay_t<decltype(f)>;
		if constexpr( none<T> || isLine<T> ) return "[]";
		else if constexpr( isPt<T> ) return "[" + js(f) + "]";
		else if constexpr( isCirc<T> ) return "[" + js(f.center()) + ",[" + js(fx(f.radius())) + "]]";
		else if constexpr( isPoly<T> ) return jl( f.getPts() );
		else { auto p = f.getPts(); return jp( p.first, p.second ); }
	}, S[s] );
}
template<typename C> std::string listPts( const C& c ) { return jl( c ); }

// the slot takes kind T (default-constructed) if it does not hold it, so that setters can be used
template<typename T> T& hold( int s ) { if( !std::holds_alternative<T>( S[s] ) ) S[s] = T(); return std::get<T>( S[s] ); }

static void mkNew( Op& op, Ev& ev ) {
	int s = (int)op.i(), k = (int)op.i(), v = (int)op.i();
	guarded( ev, [&]{
		Var keep = S[s];
		try {
			switch( k ) {
				case 1: { auto x = op.c(), y = op.c();
					if( v == 0 ) S[s] = P(x,y); else if( v == 1 ) S[s] = P( std::vector<double>{x,y,1.} ); else { auto& p = hold<P>(s); p.set( x, y ); } } break;
				case 2: { auto a = op.c(), b = op.c(), c = op.c(), d = op.c();
					if( v == 0 ) S[s] = L( P(a,b), P(c,d) ); else if( v == 1 ) S[s] = L( a, b, c, d ); else S[s] = P(a,b) * P(c,d); } break;
				case 3: { auto a = op.c(), b = op.c(), c = op.c(), d = op.c();
					if( v == 0 ) S[s] = Sg( P(a,b), P(c,d) ); else if( v == 1 ) S[s] = Sg( a, b, c, d ); else if( v == 2 ) hold<Sg>(s).set( P(a,b), P(c,d) ); else S[s] = Sg( std::make_pair( P(a,b), P(c,d) ) ); } break;
				case 4: { auto a = op.c(), b = op.c(), c = op.c(), d = op.c();
					if( v == 0 ) S[s] = Os( P(a,b), P(c,d) ); else if( v == 1 ) S[s] = Os( a, b, c, d ); else if( v == 2 ) hold<Os>(s).set( a, b, c, d ); else S[s] = Os( std::make_pair( P(a,b), P(c,d) ) ); } break;
				case 5: { auto a = op.c(), b = op.c(), c = op.c(), d = op.c();
					if( v == 0 ) S[s] = R( P(a,b), P(c,d) ); else if( v == 1 ) S[s] = R( a, b, c, d ); else if( v == 2 ) hold<R>(s).set( P(a,b), P(c,d) );
					else if( v == 3 ) S[s] = R( std::make_pair( P(a,b), P(c,d) ) ); else S[s] = R( P( (a+c)/2, (b+d)/2 ), std::fabs(c-a), std::fabs(d-b) ); } break;
				case 6: { auto a = op.c(), b = op.c(), r = op.c();
					if( v == 0 ) S[s] = Ci( P(a,b), r ); else if( v == 1 ) S[s] = Ci( a, b, r ); else if( v == 2 ) hold<Ci>(s).set( P(a,b), r ); else if( v == 3 ) hold<Ci>(s).set( (FT)a, (FT)b, (FT)r );
					else { Ci c( (double)r ); c.moveTo( a, b ); S[s] = c; } } break;
				case 7: { auto p = readPts( op ); if( v == 0 ) S[s] = Cp( p ); else hold<Cp>(s).set( p ); } break;
				case 8: { auto p = readPts( op ); if( v == 0 ) S[s] = Op_( p ); else hold<Op_>(s).set( p ); } break;
			}
		}
		catch( ... ) { if( keep.index() != (size_t)k ) S[s] = std::monostate(); throw; }   // refused: slot empty unless it already held that kind
	} );
	ev.add( "v", valOf(s) );
}

static void obs( Ev& ev, int s ) {
	std::visit( [&]( const auto& f ) {
		using T = std::decay_t<decltype(f)>;
		if constexpr( none<T> ) return;
		else {
			ev.add( "t", js( std::string( getString( f.type() ) ) ) );
			ev.add( "t2", js( std::string( getString( type(f) ) ) ) );
			ev.add( "ar", js( fa( f.area() ) ) ); ev.add( "ar2", js( fa( area(f) ) ) );
			query( ev, "len", [&]{ return js( fl( f.length() ) ); } );
			query( ev, "len2", [&]{ return js( fl( length(f) ) ); } );
			if constexpr( !isLine<T> ) ev.add( "sz", js( (long)f.size() ) );
			if constexpr( isSeg<T> ) { ev.add( "ctr", js( f.getCenter() ) ); }
			if constexpr( isRect<T> ) {
				ev.add( "w", js( fx( alt() ? f.width() : h2d::width(f) ) ) ); ev.add( "h", js( fx( alt() ? height(f) : f.height() ) ) );
				ev.add( "ctr", js( f.getCenter() ) );
				ev.add( "q4", jl( alt() ? f.get4Pts() : h2d::get4Pts(f) ) ); ev.add( "sg", jl( alt() ? h2d::getSegs(f) : f.getSegs() ) );
				ev.add( "bb", js( f.getBB() ) ); ev.add( "ext", js( alt() ? f.getExtended() : h2d::getExtended(f) ) );
				ev.add( "bc", js( alt() ? h2d::getBoundingCircle(f) : f.getBoundingCircle() ) ); ev.add( "ic", js( alt() ? f.getInscribedCircle() : h2d::getInscribedCircle(f) ) );
				auto d = alt() ? f.getDiagonals() : h2d::getDiagonals(f); ev.add( "dg", jp( d.first, d.second ) );
			}
			if constexpr( isCirc<T> ) {
				ev.add( "ctr", js( center(f) ) ); ev.add( "rad", js( fx( radius(f) ) ) ); ev.add( "bb", js( f.getBB() ) );
				ev.add( "ar3", js( fxs( (long double)f.area()/g_scale/g_scale, 1000 ) ) );
			}
		}
	}, S[s] );
}

#ifdef Q_INS
template<typename A,typename B> bool insQ( const A& a, const B& b, bool& ok ) {
	ok = true;
	if constexpr( (isRect<B> || std::is_same_v<B,OtherT<R>>) && (isCirc<A> || isPt<A>) ) {     // the rectangle given by two corners, in any order
		auto q = b.getPts();
		using Q = std::decay_t<decltype(q.first)>;
		if( alt() ) return a.isInside( q.second, q.first );
		if( alt(1) ) return a.isInside( Q( q.first.getX(), q.second.getY() ), Q( q.second.getX(), q.first.getY() ) );
		return a.isInside( b );
	}
	else if constexpr( isRect<B> || isCirc<B> || isPoly<B> || std::is_same_v<B,OtherT<R>> || std::is_same_v<B,OtherT<Ci>> || std::is_same_v<B,OtherT<Cp>> || std::is_same_v<B,OtherT<Op_>> )
		return a.isInside( b );
	else if constexpr( (isRect<A> || isPoly<A>) )
		return a.isInside( b );
	else { ok = false; return false; }
}
#endif

template<typename A,typename B,typename Fn> void withVariant( int v, const A& a, const B& b, Fn f ) {
	if( v == 0 ) f( a, b );
	else if( v == 1 ) f( a, OtherT<B>(b) );
	else f( OtherT<A>(a), OtherT<B>(b) );
}

template<typename I> void recordInter( Ev& ev, const I& i ) {
	ev.add( "b", js( (bool)i() ) );
	if( !i() ) { ev.add( "x", "[]" ); return; }
	auto g = i.get();
	using G = decltype(g);
	if constexpr( std::is_same_v<I,detail::Intersect<detail::Inters_1,FT>> ) ev.add( "x", "[" + js(g) + "]" );
	else if constexpr( std::is_same_v<I,detail::Intersect<detail::Inters_2,FT>> ) ev.add( "x", jp( g.first, g.second ) );
	else ev.add( "x", jl( g ) );
}
template<typename A,typename F> void recI( Ev& ev, const detail::Intersect<detail::Inters_1,F>& i ) { ev.add( "b", js((bool)i()) ); ev.add( "x", i() ? "[" + js(i.get()) + "]" : "[]" ); }
template<typename A,typename F> void recI( Ev& ev, const detail::Intersect<detail::Inters_2,F>& i ) {
	ev.add( "b", js((bool)i()) );
	if( !i() ) { ev.add( "x", "[]" ); return; }
	auto p = i.get();
	if( p.first == p.second ) ev.add( "x", "[" + js(p.first) + "]" ); else ev.add( "x", jp( p.first, p.second ) );
}
template<typename A,typename F> void recI( Ev& ev, const detail::IntersectM<F>& i ) {
	ev.add( "b", js((bool)i()) );
	auto g = i.get();
	if( g.size() != i.size() ) ev.add( "x", "[[0,0],[0,0],[0,0],[0,0],[0,0],[0,0],[0,0]]" );
	else ev.add( "x", jl( g ) );
}

static void query2( const std::string& n, Op& op, Ev& ev, int s, int t ) {
	int v = op.more() ? (int)op.i() : 0;
	(void)v;
	std::visit( [&]( auto& a, auto& b ) {
		using A = std::decay_t<decltype(a)>;
		using B = std::decay_t<decltype(b)>;
		if constexpr( none<A> || none<B> ) { ev.add( "r", "\"skip\"" ); return; }
		else {
			if( n == "eq" ) {
				if constexpr( std::is_same_v<A,B> ) { ev.add( "b", js( (bool)(a == b) ) ); ev.add( "ne", js( (bool)(a != b) ) ); }
				else ev.add( "r", "\"skip\"" );
				return;
			}
#ifdef Q_INS
			if( n == "ins" ) {
				std::string val;
				bool supported = true, thrown = false, res = false;
				try {
					if( v == 0 ) res = insQ( a, b, supported );
					else if constexpr( !isLine<A> && !isLine<B> ) { if( v == 1 ) res = insQ( a, OtherT<B>(b), supported ); else { supported = true; res = insQ( a, b, supported ); } }
					else res = insQ( a, b, supported );
				} catch( const std::exception& ) { thrown = true; }
				if( !supported ) { ev.add( "r", "\"skip\"" ); return; }
				ev.add( "bT", js(thrown) ); ev.add( "b", js(res) );
				return;
			}
#endif
#ifdef Q_ITX
			if( n == "itx" ) {
				if constexpr( isPt<A> || isPt<B> ) { ev.add( "r", "\"skip\"" ); return; }
				else {
					// a line held in float: its coefficients are rounded
					bool fl = ( isLine<A> && std::is_same_v<FT,float> ) || ( isLine<B> && ( std::is_same_v<FT,float> || ( v && std::is_same_v<GT,float> ) ) );
					ev.add( "fl", js(fl) );
					if constexpr( isLine<A> && isCirc<B> ) { if( v == 0 && alt() ) { recI<A>( ev, a.intersects( b.center(), b.radius() ) ); return; } }
					if constexpr( isLine<A> && isRect<B> ) { if( v == 0 && alt() ) { auto q = b.getPts(); recI<A>( ev, a.intersects( q.second, q.first ) ); return; } }
					if( v == 0 ) recI<A>( ev, a.intersects( b ) );
					else recI<A>( ev, a.intersects( OtherT<B>(b) ) );
				}
				return;
			}
#endif
#ifdef Q_RECT
			if constexpr( isRect<A> && isRect<B> ) {
				withVariant( v % 3, a, b, [&]( const auto& p, const auto& q ) {
					if( n == "iar" ) {
						auto i = v >= 6 ? (p & q) : v >= 3 ? intersectArea( p, q ) : p.intersectArea( q );
						ev.add( "b", js((bool)i()) ); if( i() ) ev.add( "rc", js( i.get() ) );
					}
					else if( n == "uni" ) {
						auto u = v >= 6 ? (p | q) : v >= 3 ? unionArea( p, q ) : p.unionArea( q );
						ev.add( "x", jl( u.getPts() ) ); ev.add( "ar", js( fa( u.area() ) ) );
					}
					else query( ev, "iou", [&]{ return js( fr( IoU( p, q ) ) ); } );
				} );
				return;
			}
#endif
#ifdef Q_DST
			if( n == "dst" ) {
				constexpr bool ok1 = (isPt<A> && (isPt<B> || isLine<B> || isSeg<B>)) || ((isLine<A> || isSeg<A>) && isPt<B>);
				if constexpr( ok1 ) {
					if constexpr( isPt<A> && std::is_same_v<B,Os> ) { int c = 7; auto d = b.distTo( a, &c ); ev.add( "d", js( fl( d ) ) ); ev.add( "cas", js( c ) ); }
					else if constexpr( isSeg<A> ) { int c = 7; if( v % 2 ) ev.add( "d", js( fl( a.distTo( Point2d_<GT>(b), &c ) ) ) ); else ev.add( "d", js( fl( a.distTo( b, &c ) ) ) ); ev.add( "cas", js( c ) ); }
					else if constexpr( isPt<A> && isPt<B> ) { ev.add( "d", js( fl( v ? dist( a, b ) : a.distTo( b ) ) ) ); }
					else if( v ) ev.add( "d", js( fl( a.distTo( OtherT<B>(b) ) ) ) );
					else ev.add( "d", js( fl( a.distTo( b ) ) ) );
				}
				else ev.add( "r", "\"skip\"" );
				return;
			}
			if( n == "cpt" ) {
				if constexpr( isPoly<A> && isPoly<B> ) {
					if( a.size() == 0 || b.size() == 0 ) { ev.add( "r", "\"skip\"" ); return; }
					auto c = getClosestPoints( a, b );
					auto i = c.getIndexes(); auto p = c.getPoints();
					ev.add( "i1", js( (long)i.first ) ); ev.add( "i2", js( (long)i.second ) ); ev.add( "x", jp( p.first, p.second ) ); ev.add( "d", js( fl( c.getMinDist() ) ) );
				}
				else ev.add( "r", "\"skip\"" );
				return;
			}
#endif
#ifdef Q_BB
			if( n == "bb2" ) {
				if constexpr( isLine<A> || isLine<B> ) ev.add( "r", "\"skip\"" );
				else query( ev, "bb", [&]{
					if( v == 0 ) return js( FRect_<FT>( getBB( a, b ) ) );
					return js( FRect_<FT>( getBB( a, OtherT<B>(b) ) ) ); } );
				return;
			}
#endif
			ev.add( "r", "\"skip\"" );
		}
	}, S[s], S[t] );
}

#ifdef Q_BB
static void bbn( Op& op, Ev& ev ) {
	int v = (int)op.i();
	std::vector<CommonType_<FT>> all;
	while( op.more() ) std::visit( [&]( const auto& f ) { using T = std::decay_t<decltype(f)>; if constexpr( !none<T> ) all.push_back( f ); }, S[ op.i() ] );
	query( ev, "bb", [&]{ return js( FRect_<FT>( getBB( all ) ) ); } );
	(void)v;
}
#endif

#ifdef Q_BB
// container holding the figures of the listed slots that have the same kind as the first one
static void bbk( Op& op, Ev& ev ) {
	int v = (int)op.i();
	std::vector<int> ss; while( op.more() ) ss.push_back( (int)op.i() );
	std::visit( [&]( const auto& f0 ) {
		using T = std::decay_t<decltype(f0)>;
		if constexpr( none<T> || isLine<T> ) ev.add( "r", "\"skip\"" );
		else {
			std::vector<T> c;
			for( int s: ss ) if( std::holds_alternative<T>( S[s] ) ) c.push_back( std::get<T>( S[s] ) );
			if( isPt<T> && c.size() < 2 ) { ev.add( "r", "\"skip\"" ); return; }
			query( ev, "bb", [&]{
				if( v == 1 ) { std::list<T> c2( c.begin(), c.end() ); return js( FRect_<FT>( getBB( c2 ) ) ); }
				if( v == 2 && c.size() >= 2 ) { std::array<T,2> c2{ c[0], c[1] }; if( c.size() == 2 ) return js( FRect_<FT>( getBB( c2 ) ) ); }
				return js( FRect_<FT>( getBB( c ) ) ); } );
		}
	}, S[ss.at(0)] );
}
#endif
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { for( auto& s: S ) s = std::monostate(); return; }
	if( n == "new" ) { mkNew( op, ev ); return; }
#ifdef Q_BB
	if( n == "bbn" ) { bbn( op, ev ); return; }
	if( n == "bbk" ) { bbk( op, ev ); return; }
#endif
	int s = (int)op.i();
	int t = 0;
	if( n == "obs" ) { obs( ev, s ); ev.add( "v", valOf(s) ); return; }
	if( n == "lpt" ) {
		auto x = op.c(), y = op.c();
		if( auto* l = std::get_if<L>( &S[s] ) ) ev.add( "d", js( fl( l->distTo( P(x,y) ) ) ) );
		return;
	}
	if( n == "ing" ) {
		long x0 = op.i(), y0 = op.i(), m = op.i(), step = op.i(), den = op.i(); int v = (int)op.i();
		std::string g = "[";
		for( long i=0; i<m; i++ ) for( long j=0; j<m; j++ ) {
			double x = (double)(x0+i*step) / den * g_scale, y = (double)(y0+j*step) / den * g_scale;
			int res = 0;
			try { std::visit( [&]( const auto& f ) { using T = std::decay_t<decltype(f)>;
				if constexpr( isRect<T> || isCirc<T> || std::is_same_v<T,Cp> ) {
					if constexpr( isRect<T> ) { if( v == 0 && alt() ) { auto q = f.getPts(); res = ( i % 2 ? P(x,y).isInside( q.first, q.second ) : P(x,y).isInside( P( q.first.getX(), q.second.getY() ), P( q.second.getX(), q.first.getY() ) ) ); g += ( g.size() > 1 ? "," : "" ) + std::to_string(res); return; } }
					if( v == 0 ) res = P(x,y).isInside( f ); else if( v == 1 ) res = Point2d_<double>(x,y).isInside( f ); else res = P(x,y).isInside( OtherT<T>(f) ); }
			}, S[s] ); } catch( const std::exception& ) { res = 2; }
			g += ( g.size() > 1 ? "," : "" ) + std::to_string(res);
		}
		ev.add( "g", g + "]" );
		ev.add( "v", valOf(s) );
		return;
	}
	bool unary = n == "tr" || n == "mv" || n == "rot" || n == "rotc" || n == "roto" || n == "setr" || n == "setc" || n == "own";
	if( unary ) {
		guarded( ev, [&]{ std::visit( [&]( auto& f ) {
			using T = std::decay_t<decltype(f)>;
			if constexpr( none<T> ) throw Skip();
			else {
				if( n == "tr" ) { auto dx = op.c(), dy = op.c(); int k = (int)op.i();
					if( k == 0 ) f.translate( dx, dy ); else if( k == 1 ) f.translate( std::make_pair(dx,dy) ); else if( alt() ) translate( f, dx, dy ); else translate( f, std::make_pair(dx,dy) ); }
				else if( n == "mv" ) {
					if constexpr( isLine<T> ) throw Skip();
					else { auto x = op.c(), y = op.c(); int k = (int)op.i();
						if constexpr( isPt<T> ) { if( k == 0 ) f.moveTo( P(x,y) ); else moveTo( f, P(x,y) ); }
						else if( k == 0 ) f.moveTo( x, y ); else if( k == 1 ) f.moveTo( P(x,y) ); else moveTo( f, P(x,y) ); } }
				else if( n == "setr" ) { if constexpr( isCirc<T> ) f.set( op.c() ); else throw Skip(); }
				else if( n == "setc" ) { if constexpr( isCirc<T> ) { auto x = op.c(), y = op.c(); f.set( P(x,y) ); } else throw Skip(); }
				else if( n == "own" ) {      // arguments that are parts of the object
					if constexpr( isLine<T> ) throw Skip();
					else {
						int j = (int)op.i(); auto ca = op.c(), cb = op.c();
						const T& cf = f;
						if constexpr( isPt<T> ) f.moveTo( cf );
						else if constexpr( isCirc<T> ) {
							auto c = f.center(); auto& o = j % 3 ? f.center() : const_cast<P&>( cf.center() );
							P ph( c.getX()+2*ca, c.getY() ), pv( c.getX(), c.getY()+2*cb );
							switch( j % 5 ) {
								case 0: f.set( o, ca ); break;
								case 1: f.set( o, ph ); break;
								case 2: f.set( pv, o ); break;
								case 3: {
									double h = std::hypot( (double)ca/g_scale, (double)cb/g_scale );
									if( ca == 0 || cb == 0 || std::fabs( h - std::round(h) ) > 1e-6 ) throw Skip();
									if( j / 5 == 0 ) f.set( o, ph, pv ); else if( j / 5 == 1 ) f.set( ph, o, pv ); else f.set( pv, ph, o );
								} break;
								default: f.moveTo( o );
							}
						}
						else if constexpr( isPoly<T> ) {
							if( f.size() == 0 ) throw Skip();
							if( j % 2 == 0 ) f.set( cf.getPts() ); else f.moveTo( cf.getPts().back() );
						}
						else if( j % 2 == 0 ) f.set( cf.getPts().second, cf.getPts().first );
						else f.moveTo( cf.getPts().second );
					}
				}
				else if constexpr( isRect<T> || isPoly<T> ) {
					auto r = static_cast<Rotate>( op.i() );
					if( n == "rot" ) { if( op.i() == 0 ) f.rotate( r ); else rotate( f, r ); }
					else if( n == "rotc" ) { auto x = op.c(), y = op.c(); int k = (int)op.i(); if( k == 0 ) f.rotate( r, P(x,y) ); else rotate( f, r, P(x,y) ); }
					else {
						size_t i = (size_t)op.i();
						if( i >= f.size() ) throw Skip();
						if constexpr( isRect<T> ) f.rotate( r, f.get4Pts()[i] );
						else f.rotate( r, static_cast<const T&>(f).getPts()[i] );
					}
				}
				else throw Skip();
			}
		}, S[s] ); } );
		ev.add( "v", valOf(s) );
		return;
	}
	t = (int)op.i();
	if( n == "asg" || n == "conv" || n == "self" || n == "seg2" || n == "neg" || n == "r2p" || n == "o2c" || n == "ext" || n == "bb" ) {
		guarded( ev, [&]{ std::visit( [&]( const auto& g ) {
			using T = std::decay_t<decltype(g)>;
			if constexpr( none<T> ) throw Skip();
			else if( n == "asg" ) { if( std::holds_alternative<T>( S[s] ) ) std::get<T>( S[s] ) = g; else { T x( g ); S[s] = x; } }
			else if( n == "conv" ) { OtherT<T> o( g ); S[s] = T( o ); }
			else if( n == "self" ) { T x = g; T& y = x; x = y; S[s] = x; }
			else if( n == "seg2" ) {
				if constexpr( std::is_same_v<T,Sg> ) { Os x( g.getPts() ); S[s] = x; }
				else if constexpr( std::is_same_v<T,Os> ) { Sg x( g ); S[s] = x; }
				else throw Skip();
			}
			else if( n == "neg" ) { if constexpr( std::is_same_v<T,Os> ) { Os x = -g; S[s] = x; } else throw Skip(); }
			else if( n == "r2p" ) { if constexpr( isRect<T> ) { Cp x( g ); S[s] = x; } else throw Skip(); }
			else if( n == "o2c" ) { if constexpr( std::is_same_v<T,Op_> ) { Cp x( g ); S[s] = x; } else throw Skip(); }
			else if( n == "ext" ) { if constexpr( isRect<T> || isSeg<T> ) { T x( g.getExtended() ); S[s] = x; } else throw Skip(); }
			else { if constexpr( isPt<T> || isLine<T> || isSeg<T> ) throw Skip(); else { R x( getBB( g ) ); S[s] = x; } }
		}, S[t] ); } );
	}
	else query2( n, op, ev, s, t );
	ev.add( "v", valOf(s) );
	ev.add( "w", valOf(t) );
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
