// Interpreter for spec/Homog.tla: three homographies.
#include "vh.hpp"
#include <deque>
#ifdef HOMOG2D_USE_OPENCV
static cv::Mat makeMat( int rows, int cols, int type, const double* w, bool inside ) {   // inside: part of a larger matrix
	cv::Mat big( rows + 3, cols + 4, type, cv::Scalar::all( 77 ) );
	cv::Mat m = inside ? big( cv::Rect( 2, 1, cols, rows ) ) : cv::Mat( rows, cols, type );
	for( int i=0; i<rows; i++ ) for( int j=0; j<cols; j++ ) {
		double x = i<3 && j<3 ? w[3*i+j] : 5;
		if( type == CV_64F ) m.at<double>(i,j) = x;
		else if( type == CV_32F ) m.at<float>(i,j) = x;
		else if( type == CV_32S ) m.at<int>(i,j) = x;
		else if( type == CV_64FC2 ) m.at<cv::Vec2d>(i,j) = cv::Vec2d( x, x );
	}
	return m;
}
#endif
using namespace h2d;
using namespace vh;
using P = Point2d_<FT>;
using L = Line2d_<FT>;
using H = Homogr_<FT>;
static std::vector<H> M;
static const double PI = 3.14159265358979323846264338327950288;

// angles with rational cosine and sine: multiples of 90 degrees, and those of the 3-4-5 triangle
static long double angle( long k ) {
	const long double pi = 3.14159265358979323846264338327950288L;
	static const int c[8][2] = { {3,4},{4,3},{-3,4},{-4,3},{3,-4},{4,-3},{-3,-4},{-4,-3} };
	if( k < 4 ) return k*pi/2;
	return std::atan2( (long double)c[k-4][1], (long double)c[k-4][0] );
}
static double factor( long r, long c ) {     // the model matrix is seen through the scale of the coordinates
	if( r == 2 && c < 2 ) return 1./g_scale;
	if( r < 2 && c == 2 ) return g_scale;
	return 1.;
}
static std::vector<P> readPts( Op& op ) {
	long n = op.i();
	std::vector<P> v;
	for( long k=0; k<n; k++ ) { auto x = op.c(); auto y = op.c(); v.push_back( P(x,y) ); }
	return v;
}
static std::string jline( const L& l ) {
	auto a = l.get();
	return "[" + js(fxs(a[0],1000)) + "," + js(fxs(a[1],1000)) + "," + js(fxs((long double)a[2]/g_scale,1000)) + "]";
}
template<typename C> void pointsTo( const C& c, std::vector<std::vector<P>>& o ) { for( const auto& p: c ) o.push_back( {p} ); }
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { M.clear(); for( int i=0; i<4; i++ ) M.emplace_back(); ev.add( "f", js( sizeof(FT) == 4 ) );
#ifdef HOMOG2D_USE_EIGEN
		ev.add( "eig", "true" );
#else
		ev.add( "eig", "false" );
#endif
#ifdef HOMOG2D_USE_OPENCV
		ev.add( "cv", "true" );
#else
		ev.add( "cv", "false" );
#endif
		return; }
	guarded( ev, [&]{
		auto s = op.i();
		H& h = M.at(s);
		if( n == "init" ) h.init();
		else if( n == "ctor" ) {
			auto f = op.i(); auto a = op.i(), b = op.i();
			if( f == 0 ) h = H();
			else if( f == 1 ) h = H( (FT)angle( a ) );
			else h = H( a*g_scale, b*g_scale );
		}
		else if( n == "st" ) {
			auto m = op.i(); auto x = op.c(), y = op.c();
			if( m == 0 ) h.setTranslation( x, y );
			else if( m == 1 ) h.addTranslation( x, y );
			else h.addTranslation( (float)x, (float)y );
		}
		else if( n == "sr" ) {
			auto m = op.i(); auto k = op.i();
			if( m == 0 ) h.setRotation( angle(k) ); else if( m == 1 ) h.addRotation( (double)angle(k) ); else h.addRotation( (FT)angle(k) );
		}
		else if( n == "ss" ) {
			auto m = op.i(); double a = op.i(), b = op.i(), d = op.i();
			if( m == 0 ) h.setScale( a/d, b/d );
			else if( m == 1 ) h.addScale( a/d, b/d );
			else if( m == 2 ) { if( a != b ) throw Skip(); h.setScale( a/d ); }
			else { if( a != b ) throw Skip(); if( d == 1 ) h.addScale( (int)a ); else h.addScale( a/d ); }
		}
		else if( n == "cell" ) {
			auto r = op.i(), c = op.i(); double num = op.i(), den = op.i(); auto v = op.i();
			bool in = r < 3 && c < 3;
			FT x = num/den * (in ? factor( r, c ) : 1.);
			if( v >= 2 && !in ) throw Skip();
			if( v == 0 ) h.set( r, c, x );
			else if( v == 1 ) h.value( r, c ) = x;
			else if( v == 2 ) h.getRaw()[r][c] = x;
			else { detail::Matrix_<FT>& b = h; b.set( r, c, x ); }
		}
		else if( n == "mul" ) { auto t = op.i(), u = op.i(); h = M.at(t) * M.at(u); }
		else if( n == "inv" ) h.inverse();
		else if( n == "tra" ) { if( g_scale != 1. ) throw Skip(); h.transpose(); }
		else if( n == "nrm" ) h.normalize();
		else if( n == "asg" ) h = M.at( op.i() );
		else if( n == "cpy" ) { H c( M.at( op.i() ) ); M[s] = c; }
		else if( n == "vec" ) {
			auto v = op.i();
			std::vector<std::vector<double>> w( 3, std::vector<double>(3) );
			for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) w[i][j] = op.i() * factor(i,j);
			auto d = op.i();
			for( auto& li: w ) for( auto& e: li ) e /= d;
			if( v == 0 ) h = H( w );
			else if( v == 1 ) {
				std::array<std::array<FT,3>,3> a;
				for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) a[i][j] = w[i][j];
				h = H( a );
			}
			else if( v == 2 ) {
				std::vector<std::vector<float>> a( 3, std::vector<float>(3) );
				for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) a[i][j] = w[i][j];
				h = H( a );
			}
			else if( v == 3 ) { w.pop_back(); h = H( w ); }
			else { w[1].push_back( 0 ); h = H( w ); }
		}
#ifdef HOMOG2D_USE_OPENCV
		else if( n == "cvm" ) {      // from an OpenCv matrix
			auto v = op.i();
			double w[9];
			for( int i=0; i<9; i++ ) w[i] = op.i() * factor( i/3, i%3 );
			auto d = op.i();
			for( auto& e: w ) e /= d;
			if( v == 0 ) { auto m = makeMat( 3,3, CV_64F, w, false ); h = m; }
			else if( v == 1 ) { auto m = makeMat( 3,3, CV_32F, w, false ); h = m; }
			else if( v == 2 ) { auto m = makeMat( 3,3, CV_64F, w, false ); H c( m ); h = c; }
			else if( v == 3 ) { auto m = makeMat( 3,3, CV_32F, w, false ); H c = m; h = c; }
			else if( v == 4 ) { auto m = makeMat( 3,3, CV_64F, w, true ); h = m; }
			else if( v == 5 ) { auto m = makeMat( 3,3, CV_32F, w, true ); h = m; }
			else if( v == 6 ) { auto m = makeMat( 2,3, CV_64F, w, false ); h = m; }
			else if( v == 7 ) { auto m = makeMat( 3,4, CV_32F, w, true ); h = m; }
			else if( v == 8 ) { auto m = makeMat( 3,3, CV_32S, w, false ); h = m; }
			else if( v == 9 ) { auto m = makeMat( 3,3, CV_64FC2, w, false ); h = m; }
			else { cv::Mat m; h = m; }
		}
		else if( n == "cvx" ) {      // to an OpenCv matrix
			auto v = op.i();
			const H& c = h;
			double w[9] = {};
			cv::Mat m;
			if( v == 2 ) m = makeMat( 4,2, CV_64F, w, false );
			else if( v == 3 ) m = makeMat( 3,3, CV_32F, w, false );
			else if( v == 4 ) m = makeMat( 3,3, CV_32F, w, true );
			bool f = v == 1 || v == 4 || v == 5;
			if( v == 6 ) c.copyTo( m, CV_32S );
			else if( f ) c.copyTo( m, CV_32F );
			else if( v == 7 ) c.copyTo( m, CV_64F );
			else c.copyTo( m );
			if( v == 5 ) { H o = m; m.release(); o.copyTo( m, CV_32F ); }       // there and back
			ev.add( "fmt", js( m.rows == 3 && m.cols == 3 && m.type() == (f ? CV_32F : CV_64F) ) );
			std::string o = "[";
			for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) o += (i+j ? "," : "") + js( fr( ( f ? (double)m.at<float>(i,j) : m.at<double>(i,j) ) / factor(i,j) ) );
			ev.add( "m", o + "]" );
		}
#endif
		else if( n == "f4p" ) {      // from pairs of points
			auto v = op.i();
			auto p1 = readPts( op ), p2 = readPts( op );
			int method = v % 2;
			if( v < 2 ) h.buildFrom4Points( p1, p2, method );
			else if( v < 4 ) h = buildFrom4Points( p1, p2, method );
			else if( v == 4 ) h.buildFrom4Points( p1, p2 );
			else h = buildFrom4Points( p1, p2 );
		}
		else if( n == "f4i" ) {      // the same, only seen through the images of the points
			auto v = op.i();
			auto p1 = readPts( op ), p2 = readPts( op );
			query( ev, "o", [&]{
				H c = buildFrom4Points( p1, p2, v % 2 );
				std::vector<P> o;
				for( const auto& p: p1 ) o.push_back( c * p );
				return jl( o );
			} );
		}
		else if( n == "eq" ) {
			const H& t = M.at( op.i() );
			query( ev, "q", [&]{ return js( h == t ); } );
			query( ev, "ne", [&]{ return js( h != t ); } );
		}
		else if( n == "obs" ) {
			const H& c = h;
			std::string o = "[";
			for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) o += (i+j ? "," : "") + js( fr( (double)c.value(i,j) / factor(i,j) ) );
			ev.add( "m", o + "]" );
			ev.add( "nz", js( c.isNormalized() ) );
			ev.add( "det", js( fr( c.determ() ) ) );
			bool same = true;
			const auto& raw = c.getRaw();
			for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) same = same && raw[i][j] == c.value(i,j);
			ev.add( "raw", js( same ) );
		}
		else if( n == "app" ) {
			auto x = op.c(), y = op.c();
			P p( x, y );
			query( ev, "p", [&]{ return js( h * p ); } );
		}
		else if( n == "apl" ) {
			auto a = op.c(), b = op.c(), c = op.c(), d = op.c();
			P p( a, b ), q( c, d );
			if( p == q ) throw Skip();
			L l( p, q );
			query( ev, "l", [&]{
				L o = h * l;
				query( ev, "d1", [&]{ return js( fx( o.distTo( h*p ) ) ); } );
				query( ev, "d2", [&]{ return js( fx( o.distTo( h*q ) ) ); } );
				return jline( o );
			} );
		}
		else if( n == "img" ) {
			auto k = op.i();
			auto v = readPts( op );
			std::vector<std::vector<P>> o;       // one list of points per figure
			std::string kind;
			auto addPair = [&]( auto s ) { auto pp = s.getPts(); o.push_back( { pp.first, pp.second } ); };
			try {
				if( k == 3 ) { Segment_<FT> g( v.at(0), v.at(1) ); kind = "throw"; addPair( h*g ); }
				else if( k == 4 ) { OSegment_<FT> g( v.at(0), v.at(1) ); kind = "throw"; addPair( h*g ); }
				else if( k == 5 ) { FRect_<FT> g( v.at(0), v.at(1) ); kind = "throw"; CPolyline_<FT> r = h*g; const auto& rc = r; o.push_back( rc.getPts() ); }
				else if( k == 7 ) { CPolyline_<FT> g( v ); kind = "throw"; const auto r = h*g; o.push_back( r.getPts() ); }
				else if( k == 8 ) { OPolyline_<FT> g( v ); kind = "throw"; const auto r = h*g; o.push_back( r.getPts() ); }
				else if( k == 11 ) { kind = "throw"; pointsTo( h*v, o ); }
				else if( k == 12 ) { kind = "throw"; pointsTo( h*std::list<P>( v.begin(), v.end() ), o ); }
				else if( k == 13 ) { std::array<P,3> a{ v.at(0), v.at(1), v.at(2) }; kind = "throw"; pointsTo( h*a, o ); }
				else if( k == 14 ) { std::vector<Segment_<FT>> g; for( size_t i=0; i+1<v.size(); i+=2 ) g.emplace_back( v[i], v[i+1] ); kind = "throw"; for( const auto& e: h*g ) addPair( e ); }
				else if( k == 15 ) { std::list<OSegment_<FT>> g; for( size_t i=0; i+1<v.size(); i+=2 ) g.emplace_back( v[i], v[i+1] ); kind = "throw"; for( const auto& e: h*g ) addPair( e ); }
				else if( k == 16 ) { kind = "throw"; h.applyTo( v ); pointsTo( v, o ); }
				else if( k == 17 ) { std::list<OSegment_<FT>> g; for( size_t i=0; i+1<v.size(); i+=2 ) g.emplace_back( v[i], v[i+1] ); kind = "throw"; h.applyTo( g ); for( const auto& e: g ) addPair( e ); }
				else if( k == 18 ) { std::vector<CPolyline_<FT>> g{ CPolyline_<FT>(v), CPolyline_<FT>(v) }; kind = "throw"; for( const auto& e: h*g ) o.push_back( e.getPts() ); }
				kind = "ok";
			}
			catch( const std::out_of_range& ) { throw Skip(); }
			catch( const std::exception& ) { if( kind.empty() ) kind = "invalid"; }
			ev.add( "k", js( kind ) );
			std::string js_ = "[";
			for( size_t i=0; i<o.size(); i++ ) js_ += (i?",":"") + jl( o[i] );
			ev.add( "o", js_ + "]" );
		}
		else if( n == "iml" ) {     // containers of lines
			auto k = op.i();
			auto v = readPts( op );
			std::vector<L> g;
			for( size_t i=0; i+1<v.size(); i+=2 ) { if( v[i] == v[i+1] ) throw Skip(); g.emplace_back( v[i], v[i+1] ); }
			query( ev, "o", [&]{
				std::string o = "[";
				int i = 0;
				auto add = [&]( const auto& c ){ for( const auto& l: c ) o += (i++ ? "," : "") + jline( l ); };
				if( k == 0 ) add( h*g );
				else if( k == 1 ) add( h*std::list<L>( g.begin(), g.end() ) );
				else { h.applyTo( g ); add( g ); }
				return o + "]";
			} );
		}
		else _exit(5);
	} );
}
int main( int c, char** v ) { return run( c, v, step ); }
