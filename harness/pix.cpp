// Interpreter for spec/Pix.tla: drawing on raster images.
#define HOMOG2D_USE_OPENCV
#include "vh.hpp"
#include <optional>
using namespace h2d;
using namespace vh;
using Img = img::Image<cv::Mat>;
static std::optional<Img> im[3];
static cv::Mat mat;
static cv::Mat prev[4];
static img::DrawParams dp;
static std::string g_file;
static const int pal[11][3] = { {255,255,255},{80,80,80},{255,0,0},{0,255,0},{0,0,255},{1,2,3},{10,10,10},{20,20,20},{200,100,50},{0,0,0},{128,128,128} };
static int idx( const cv::Vec3b& v ) { for( int k=0; k<11; k++ ) if( v[2] == pal[k][0] && v[1] == pal[k][1] && v[0] == pal[k][2] ) return k; return 99; }
static cv::Mat& view( int k ) { return k == 3 ? mat : im[k]->getReal(); }
static void observe( Ev& ev, bool whole ) {
	std::string o = "[";
	for( int k=1; k<=3; k++ ) {
		auto& m = view( k );
		auto& p = prev[k];
		int u = -1;
		std::string px;
		bool same = m.rows == p.rows && m.cols == p.cols;
		if( whole && m.rows && m.cols ) { u = idx( m.at<cv::Vec3b>(0,0) ); for( int y=0; y<m.rows; y++ ) for( int x=0; x<m.cols; x++ ) if( idx( m.at<cv::Vec3b>(y,x) ) != u ) u = -1; }
		if( same ) { long c = 0; for( int y=0; y<m.rows; y++ ) for( int x=0; x<m.cols; x++ ) if( m.at<cv::Vec3b>(y,x) != p.at<cv::Vec3b>(y,x) ) { if( whole && c++ > 3 ) continue; px += (px.empty()?"[":",[") + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string( idx( m.at<cv::Vec3b>(y,x) ) ) + "]"; } }
		else px = "[-1,-1,-1]";
		o += std::string( k>1?",":"" ) + "{\"w\":" + js( m.cols ) + ",\"h\":" + js( m.rows ) + ",\"u\":" + js( u ) + ",\"px\":[" + px + "]}";
		p = m.clone();
	}
	ev.add( "o", o + "]" );
}
static double q( Op& op ) { return op.i() * .25; }
static std::vector<Point2d_<FT>> pts( Op& op ) { std::vector<Point2d_<FT>> v; auto n = op.i(); for( long i=0; i<n; i++ ) { auto x = q(op); auto y = q(op); v.emplace_back( (FT)x, (FT)y ); } return v; }
template<typename Fn> void withObj( Op& op, long kd, Fn f ) {
	if( kd == 8 ) { auto v = pts( op ); f( v.empty() ? CPolyline_<FT>() : CPolyline_<FT>( v ) ); return; }
	if( kd == 9 ) { auto v = pts( op ); f( v.empty() ? OPolyline_<FT>() : OPolyline_<FT>( v ) ); return; }
	FT a = q(op), b = q(op);
	if( kd == 1 ) { f( Point2d_<FT>( a, b ) ); return; }
	FT c = q(op);
	if( kd == 5 ) { f( Circle_<FT>( a, b, c ) ); return; }
	FT d = q(op);
	switch( kd ) {
		case 2: f( Line2d_<FT>( Point2d_<FT>(a,b), Point2d_<FT>(c,d) ) ); return;
		case 3: f( Segment_<FT>( a, b, c, d ) ); return;
		case 4: f( OSegment_<FT>( a, b, c, d ) ); return;
		case 6: f( FRect_<FT>( a, b, c, d ) ); return;
		case 7: { double t = op.i() * M_PI / 12.; f( Ellipse_<FT>( (double)a, (double)b, (double)c, (double)d, t ) ); return; }
	}
	std::fprintf( stderr, "bad kind\n" ); _exit(4);
}
template<typename O> bool same( const O& a, const O& b ) { return a == b; }
template<typename A,typename B> bool same( const base::PolylineBase<A,B>& a, const base::PolylineBase<A,B>& b ) { return a.size() == b.size() && a.getPts() == b.getPts(); }
template<typename O> void cont( Img& i, Op& op, long form, long kd, long n, Ev& ev ) {
	std::vector<O> v;
	for( long k=0; k<n; k++ ) withObj( op, kd, [&]( const auto& o ) { if constexpr( std::is_same_v<std::decay_t<decltype(o)>,O> ) v.push_back( o ); } );
	auto before = v;
	if( form == 9 ) { std::function<img::DrawParams(int)> fn = []( int k ) { auto d = dp; auto& c = pal[1+(k%4)]; d.setColor( c[0], c[1], c[2] ); return d; }; draw( i, v, fn ); }
	else if( form == 1 && n == 2 ) { std::array<O,2> a{ v[0], v[1] }; draw( i, a, dp ); }
	else if( form == 2 ) { std::list<O> l( v.begin(), v.end() ); draw( i, l, dp ); }
	else draw( i, v, dp );
	ev.add( "same", js( before == v ) );
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		img::DrawParams::resetDefault();
		dp = img::DrawParams();
		for( int k=1; k<3; k++ ) im[k].emplace( 20, 20 );
		mat.release();
		mat = cv::Mat( 20, 20, CV_8UC3, cv::Scalar(255,255,255) );
		for( int k=1; k<=3; k++ ) prev[k] = view( k ).clone();
		ev.add( "f", js( std::is_same_v<FT,float> ) );
		return;
	}
	bool whole = false, watch = true;
	guarded( ev, [&]{
		if( n == "dp" ) {
			auto& c = pal[op.i()];
			dp = img::DrawParams();
			dp.setColor( c[0], c[1], c[2] ).setThickness( op.i() );
			dp._dpValues._lineType = op.i();
			dp.showPoints( op.i() ).showIndex( op.i() ).showAngles( op.i() ).setPointStyle( (img::PtStyle)op.i() );
			dp.setPointSize( op.i() ).setFontSize( op.i() );
			return;
		}
		auto k = op.i();
		if( n == "new" ) { whole = true; auto w = op.i(), h = op.i(); im[k].emplace( (size_t)w, (size_t)h ); }
		else if( n == "siz" ) { whole = true; size_t w = op.i(), h = op.i(); if( op.i() ) im[k]->setSize( std::make_pair( w, h ) ); else im[k]->setSize( w, h ); }
		else if( n == "ext" ) {
			whole = true;
			auto w = op.i(), h = op.i(); auto& c = pal[op.i()];
			if( im[3-k]->getReal().data == mat.data ) im[3-k].emplace( 20, 20 );
			mat = cv::Mat( h, w, CV_8UC3, cv::Scalar( c[2], c[1], c[0] ) );
			im[k].emplace( mat );
		}
		else if( n == "clr" ) {
			whole = true;
			auto f = op.i(); auto& c = pal[op.i()];
			if( f == 0 ) im[k]->clear(); else if( f == 1 ) im[k]->clear( img::Color( c[0], c[1], c[2] ) ); else if( f == 2 ) im[k]->clear( c[0], c[1], c[2] ); else im[k]->clear( (uint8_t)c[0] );
		}
		else if( n == "dr" ) { auto f = op.i(), kd = op.i(); withObj( op, kd, [&]( const auto& o ) {
			auto b = o;
			if( f == 0 ) o.draw( *im[k], dp ); else if( f == 1 ) draw( *im[k], o, dp ); else im[k]->draw( o, dp );
			ev.add( "same", js( same( b, o ) ) );
		} ); }
		else if( n == "drc" ) {
			auto f = op.i(), kd = op.i(), c = op.i();
			switch( kd ) {
				case 1: cont<Point2d_<FT>>( *im[k], op, f, kd, c, ev ); break;
				case 2: cont<Line2d_<FT>>( *im[k], op, f, kd, c, ev ); break;
				case 3: cont<Segment_<FT>>( *im[k], op, f, kd, c, ev ); break;
				case 4: cont<OSegment_<FT>>( *im[k], op, f, kd, c, ev ); break;
				case 5: cont<Circle_<FT>>( *im[k], op, f, kd, c, ev ); break;
				case 6: cont<FRect_<FT>>( *im[k], op, f, kd, c, ev ); break;
				case 7: cont<Ellipse_<FT>>( *im[k], op, f, kd, c, ev ); break;
				default: std::abort();
			}
		}
		else if( n == "drp" ) {
			auto f = op.i(), k1 = op.i(), k2 = op.i();
			withObj( op, k1, [&]( const auto& o1 ) { withObj( op, k2, [&]( const auto& o2 ) {
				auto p = std::make_pair( o1, o2 );
				if( f == 0 ) draw( *im[k], p, dp ); else im[k]->draw( p, dp );
				ev.add( "same", js( same( p.first, o1 ) && same( p.second, o2 ) ) );
			} ); } );
		}
		else if( n == "txt" ) {
			auto f = op.i(); FT x = q(op), y = q(op);
			std::string s( op.i(), 'M' );
			Point2d_<FT> p( x, y );
			if( f == 0 ) im[k]->drawText( s, Point2d_<float>(p), dp ); else drawText( *im[k], s, p, dp );
			ev.add( "same", js( true ) );
		}
		else if( n == "sz" ) {
			watch = false;
			auto s = im[k]->size();
			ev.add( "sz", jl( std::vector<long>{ (long)s.first, (long)s.second, im[k]->cols(), im[k]->rows(), im[k]->getReal().cols, im[k]->getReal().rows } ) );
			ev.add( "fr", js( getFRect<FT>( im[k]->getReal() ) ) );
		}
		else if( n == "wr" ) {
			watch = false;
			im[k]->write( g_file );
			auto r = cv::imread( g_file );
			auto& m = im[k]->getReal();
			::unlink( g_file.c_str() );
			ev.add( "ok", js( r.rows == m.rows && r.cols == m.cols && cv::norm( r, m, cv::NORM_INF ) == 0. ) );
		}
		else std::abort();
	} );
	if( watch ) observe( ev, whole );
}
int main( int argc, char** argv ) { if( argc > 2 ) g_file = std::string( argv[2] ) + ".png"; return run( argc, argv, step ); }
