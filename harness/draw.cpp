// Interpreter for spec/Draw.tla: settings, SVG images, reading them back.
#define HOMOG2D_USE_SVG_IMPORT
#include "vh.hpp"
#include <optional>
using namespace h2d;
using namespace vh;
using Img = img::Image<img::SvgImage>;
static std::optional<Img> im[3];
static std::optional<img::DrawParams> dp[4];
static std::string g_file;
static double q( Op& op ) { return op.i() * .25; }
static long f3( double v ) { return std::isnan(v) ? BAD : std::llround( v * 1000. ); }
static std::string jn( const std::vector<long>& v ) { return jl( v ); }
static const char* attr( long k ) {
	switch( k ) { case 1: return "data-k=\"1\""; case 2: return "fill=\"red\""; case 3: return "data-k=\"3\" fill=\"rgb(1,2,3)\""; case 4: return "stroke-dasharray=\"5,5\""; }
	return "";
}
static const char* junk( long k ) {
	switch( k ) {
		case 1: return "<foo a=\"1\"/>\n"; case 2: return "<!-- comment <circle/> -->\n";
		case 3: return "<g transform=\"x\"><circle cx=\"10\" cy=\"20\" r=\"5\"/></g>\n"; case 4: return "<desc>text</desc>\n";
		case 5: return "<path d=\"M1 1 C 1 2 3 4 5 6\"/>\n"; case 6: return "<path d=\"M10 10 L 20 10 20 30 z\"/>\n";
		case 7: return "<text x=\"1\" y=\"2\">abc</text>\n"; case 8: return "<defs><style>x</style></defs>\n";
		case 9: return "<polygon points=\"10,10 20,10 20,30 10,10\"/>\n"; case 10: return "<ellipse cx=\"50\" cy=\"40\" rx=\"10\" ry=\"20\"/>\n";
		case 11: return "<g><g><line x1=\"1\" y1=\"2\" x2=\"3\" y2=\"4\"/></g><foo><rect x=\"5\" y=\"6\" width=\"7\" height=\"8\"/></foo></g>\n";
		case 12: return "<path d=\"M10 10 L 20 10 20 30\" stroke-linecap=\"butt\"/>\n"; case 13: return "<polyline points=\"40,10 20,10 20,30\"/>\n";
	}
	return "\n";
}
static std::vector<Point2d_<FT>> pts( Op& op ) { std::vector<Point2d_<FT>> v; auto n = op.i(); for( long i=0; i<n; i++ ) { auto x = q(op); auto y = q(op); v.emplace_back( (FT)x, (FT)y ); } return v; }
// calls f with the object of the given kind
template<typename Fn> void withObj( Op& op, long kd, Fn f ) {
	if( kd == 8 ) { auto v = pts( op ); f( v.empty() ? CPolyline_<FT>() : CPolyline_<FT>( v ) ); return; }
	if( kd == 9 ) { auto v = pts( op ); f( v.empty() ? OPolyline_<FT>() : OPolyline_<FT>( v ) ); return; }
	FT a = q(op), b = q(op);
	if( kd == 1 ) { f( Point2d_<FT>( a, b ) ); return; }
	FT c = q(op);
	if( kd == 5 ) { f( Circle_<FT>( a, b, c ) ); return; }
	FT d = q(op);
	switch( kd ) {
		case 2: f( Line2d_<FT>( Point2d_<FT>(a,b), Point2d_<FT>(c,d) ) ); return;
		case 3: f( Segment_<FT>( a, b, c, d ) ); return;
		case 4: f( OSegment_<FT>( a, b, c, d ) ); return;
		case 6: f( FRect_<FT>( a, b, c, d ) ); return;
		case 7: { double t = op.i() * M_PI / 12.; f( Ellipse_<FT>( (double)a, (double)b, (double)c, (double)d, t ) ); return; }
	}
	std::fprintf( stderr, "bad kind\n" ); _exit(4);
}
template<typename O> bool same( const O& a, const O& b ) { return a == b; }
template<typename A,typename B> bool same( const base::PolylineBase<A,B>& a, const base::PolylineBase<A,B>& b ) { return a.size() == b.size() && a.getPts() == b.getPts(); }
template<typename O> void drawIt( Img& i, long form, long m, const O& o, Ev& ev ) {
	auto before = o;
	if( m == 0 ) { if( form == 0 ) o.draw( i ); else if( form == 1 ) draw( i, o ); else i.draw( o ); }
	else { if( form == 0 ) o.draw( i, *dp[m] ); else if( form == 1 ) draw( i, o, *dp[m] ); else i.draw( o, *dp[m] ); }
	ev.add( "same", js( same( before, o ) ) );
}
template<typename C> void drawCont( Img& i, long m, const C& c ) {
	if( m == 0 ) draw( i, c );
	else if( m == 9 ) { std::function<img::DrawParams(int)> fn = []( int k ) { return *dp[1 + k%3]; }; draw( i, c, fn ); }
	else draw( i, c, *dp[m] );
}
template<typename O> void cont( Img& i, Op& op, long form, long m, long kd, long n, Ev& ev ) {
	std::vector<O> v;
	for( long k=0; k<n; k++ ) withObj( op, kd, [&]( const auto& o ) { if constexpr( std::is_same_v<std::decay_t<decltype(o)>,O> ) v.push_back( o ); } );
	auto before = v;
	if( form == 1 && v.size() == 2 ) { std::array<O,2> a{ v[0], v[1] }; drawCont( i, m, a ); }
	else if( form == 2 ) { std::list<O> l( v.begin(), v.end() ); drawCont( i, m, l ); }
	else drawCont( i, m, v );
	ev.add( "same", js( before == v ) );
}
static std::string stream( const Img& i ) { std::ostringstream o; o << i; return o.str(); }
static std::vector<long> color( const char* s, bool hex ) {
	int r, g, b;
	if( s && !hex && std::sscanf( s, "rgb(%d,%d,%d)", &r, &g, &b ) == 3 ) return {r,g,b};
	if( s && hex && s[0] == '#' && std::strlen(s) == 7 && std::sscanf( s+1, "%2x%2x%2x", (unsigned*)&r, (unsigned*)&g, (unsigned*)&b ) == 3 ) return {r,g,b};
	return {};
}
struct Flat: tinyxml2::XMLVisitor {
	std::vector<std::string> els;
	bool VisitExit( const tinyxml2::XMLElement& e ) override {
		std::string k = e.Name();
		auto num = [&]( const char* a ) { double v = 0; return e.QueryDoubleAttribute( a, &v ) == tinyxml2::XML_SUCCESS ? f3( v ) : BAD; };
		std::vector<long> n;
		std::string x = "[]"; long g = -99999;
		if( k == "line" ) n = { num("x1"), num("y1"), num("x2"), num("y2") };
		else if( k == "circle" ) n = { num("cx"), num("cy"), num("r") };
		else if( k == "rect" ) n = { num("x"), num("y"), num("width"), num("height") };
		else if( k == "ellipse" ) {
			n = { num("cx"), num("cy"), num("rx"), num("ry") };
			double a, b, c;
			if( e.Attribute("transform") && std::sscanf( e.Attribute("transform"), "rotate(%lf,%lf,%lf)", &a, &b, &c ) == 3 ) { n.push_back( f3(a) ); n.push_back( f3(b) ); n.push_back( f3(c) ); }
			else n.push_back( 0 );
		}
		else if( k == "polygon" || k == "polyline" ) {
			std::string s = e.Attribute("points") ? e.Attribute("points") : "x";
			for( auto& c: s ) if( c == ',' ) c = ' ';
			std::istringstream is( s ); double v;
			while( is >> v ) n.push_back( f3( v ) );
			if( !is.eof() ) n.push_back( BAD );
		}
		else if( k == "text" ) {
			n = { num("x"), num("y") };
			const char* t = e.GetText();
			std::vector<long> c;
			for( auto p = t ? t : ""; *p; p++ ) c.push_back( (unsigned char)*p );
			x = jn( c );
			if( e.FirstChildElement() ) x = "[-1]";
			if( t ) { char* end; double v = std::strtod( t, &end ); if( !*end && end != t ) g = std::llround( v * 100. ); }
		}
		else if( k != "path" ) return true;
		bool txt = k == "text";
		auto c = txt ? color( e.Attribute("fill"), true ) : color( e.Attribute("stroke"), false );
		long w = 0;
		if( txt ) { const char* s = e.Attribute("font-size"); int v; char u[3]={0,0,0}; if( s ) w = std::sscanf( s, "%d%2s", &v, u ) == 2 && std::string(u) == "px" ? v : BAD; }
		else if( e.Attribute("stroke-width") ) w = std::atol( e.Attribute("stroke-width") );
		long f = 0;
		if( !txt && e.Attribute("fill") ) { std::string s = e.Attribute("fill"); f = s == "none" ? 1 : s == "red" ? 2 : s == "rgb(1,2,3)" ? 3 : 9; }
		long a = e.Attribute("data-k") ? std::atol( e.Attribute("data-k") ) : 0;
		if( e.Attribute("stroke-dasharray") ) a = std::string( e.Attribute("stroke-dasharray") ) == "5,5" ? 4 : 9;
		els.push_back( "{\"k\":\"" + k + "\",\"n\":" + jn( n ) + ",\"c\":" + jn( c ) + ",\"w\":" + js( w ) + ",\"f\":" + js( f ) + ",\"a\":" + js( a ) + ",\"x\":" + x + ",\"g\":" + js( g ) + "}" );
		return true;
	}
};
template<typename P> std::vector<long> nums( const P& p ) { std::vector<long> n; for( auto& t: p.getPts() ) { n.push_back( f3( t.getX() ) ); n.push_back( f3( t.getY() ) ); } return n; }
static std::vector<CommonType_<double>> import( const Img& i ) {
	tinyxml2::XMLDocument doc;
	auto s = stream( i );
	if( doc.Parse( s.c_str() ) != tinyxml2::XML_SUCCESS ) throw std::runtime_error( "not well formed" );
	svg::Visitor vis;
	doc.Accept( &vis );
	return vis.get();
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) {
		img::DrawParams::resetDefault();
		for( int k=0; k<4; k++ ) dp[k].emplace();
		for( int k=0; k<3; k++ ) im[k].emplace();
		ev.add( "f", js( std::is_same_v<FT,float> ) );
		return;
	}
	guarded( ev, [&]{
		auto k = n == "rst" ? 0 : op.i();
		auto ref = [&]( img::DrawParams& r ) { ev.add( "ref", js( &r == &*dp[k] ) ); };
		if( n == "dpn" ) dp[k].emplace();
		else if( n == "dpc" ) { auto j = op.i(); if( op.i() == 0 ) { auto t = *dp[j]; *dp[k] = t; } else { img::DrawParams t( *dp[j] ); dp[k].emplace( t ); } }
		else if( n == "col" ) { auto f = op.i(); auto r = op.i(), g = op.i(), b = op.i(); ref( f == 0 ? dp[k]->setColor( r, g, b ) : dp[k]->setColor( img::Color( r, g, b ) ) ); }
		else if( n == "thk" ) ref( dp[k]->setThickness( op.i() ) );
		else if( n == "sty" ) ref( dp[k]->setPointStyle( (img::PtStyle)op.i() ) );
		else if( n == "siz" ) ref( dp[k]->setPointSize( op.i() ) );
		else if( n == "spt" ) { auto b = op.i(); ref( b ? dp[k]->showPoints() : dp[k]->showPoints( false ) ); }
		else if( n == "six" ) { auto b = op.i(); ref( b ? dp[k]->showIndex() : dp[k]->showIndex( false ) ); }
		else if( n == "san" ) { auto b = op.i(); ref( b ? dp[k]->showAngles() : dp[k]->showAngles( false ) ); }
		else if( n == "fnt" ) ref( dp[k]->setFontSize( op.i() ) );
		else if( n == "att" ) ref( dp[k]->setAttrString( attr( op.i() ) ) );
		else if( n == "sel" ) ref( dp[k]->selectPoint() );
		else if( n == "def" ) dp[k]->setDefault();
		else if( n == "rst" ) img::DrawParams::resetDefault();
		else if( n == "dpo" ) {
			const auto& d = dp[k]->_dpValues;
			ev.add( "d", jn( { d._color.r, d._color.g, d._color.b, d._lineThickness, d._pointSize, d._ptDelta, (long)d._ptStyle, d._enhancePoint, d._showPoints, d._showIndex, d._showAngles, d._fontSize } ) );
			long at = -1; for( long j=0; j<5; j++ ) if( d._attrString == attr( j ) ) at = j;
			ev.add( "at", js( at ) );
			auto c = dp[k]->color();
			ev.add( "cc", jn( { c.r, c.g, c.b } ) );
		}
		else if( n == "new" ) { auto w = op.i(), h = op.i(); im[k].emplace( (size_t)w, (size_t)h ); }
		else if( n == "ssz" ) { auto f = op.i(); size_t w = op.i(), h = op.i(); if( f == 0 ) im[k]->setSize( w, h ); else if( f == 1 ) im[k]->setSize( std::make_pair( w, h ) ); else im[k]->setSize( std::make_pair( (double)w, (double)h ) ); }
		else if( n == "clr" ) { auto f = op.i(); if( f == 0 ) im[k]->clear(); else if( f == 1 ) im[k]->clear( img::Color( 1, 2, 3 ) ); else if( f == 2 ) im[k]->clear( 1, 2, 3 ); else im[k]->clear( (uint8_t)9 ); }
		else if( n == "isz" ) { auto s = im[k]->size(); ev.add( "sz", jn( { (long)s.first, (long)s.second, im[k]->cols(), im[k]->rows() } ) ); }
		else if( n == "dr" ) { auto f = op.i(), m = op.i(), kd = op.i(); withObj( op, kd, [&]( const auto& o ) { drawIt( *im[k], f, m, o, ev ); } ); }
		else if( n == "drc" ) {
			auto f = op.i(), m = op.i(), kd = op.i(), c = op.i();
			switch( kd ) {
				case 1: cont<Point2d_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				case 2: cont<Line2d_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				case 3: cont<Segment_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				case 4: cont<OSegment_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				case 5: cont<Circle_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				case 6: cont<FRect_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				case 7: cont<Ellipse_<FT>>( *im[k], op, f, m, kd, c, ev ); break;
				default: throw Skip{};
			}
		}
		else if( n == "drp" ) {
			auto f = op.i(), m = op.i(), k1 = op.i(), k2 = op.i();
			withObj( op, k1, [&]( const auto& o1 ) { withObj( op, k2, [&]( const auto& o2 ) {
				auto p = std::make_pair( o1, o2 );
				if( f == 0 ) { if( m ) draw( *im[k], p, *dp[m] ); else draw( *im[k], p ); }
				else { if( m ) im[k]->draw( p, *dp[m] ); else im[k]->draw( p ); }
				ev.add( "same", js( same( p.first, o1 ) && same( p.second, o2 ) ) );
			} ); } );
		}
		else if( n == "txt" ) {
			auto f = op.i(), m = op.i(); FT x = q(op), y = q(op);
			std::string s; while( op.more() ) s.push_back( (char)op.i() );
			Point2d_<FT> p( x, y );
			if( f == 0 ) { if( m ) im[k]->drawText( s, Point2d_<float>(p), *dp[m] ); else im[k]->drawText( s, Point2d_<float>(p) ); }
			else { if( m ) drawText( *im[k], s, p, *dp[m] ); else drawText( *im[k], s, p ); }
		}
		else if( n == "raw" ) im[k]->getReal()._svgString << junk( op.i() );
		else if( n == "doc" ) {
			auto s = stream( *im[k] );
			tinyxml2::XMLDocument doc;
			bool ok = doc.Parse( s.c_str() ) == tinyxml2::XML_SUCCESS && doc.RootElement() && !doc.RootElement()->NextSiblingElement();
			ev.add( "ok", js( ok ) );
			const auto& fn = g_file;
			im[k]->write( fn );
			std::ifstream is( fn ); std::stringstream b; b << is.rdbuf(); ::unlink( fn.c_str() );
			ev.add( "wf", js( b.str() == s ) );
			Flat fl;
			if( ok ) doc.Accept( &fl );
			ev.add( "root", js( std::string( ok ? doc.RootElement()->Name() : "" ) ) );
			std::pair<double,double> sz( -1, -1 );
			if( ok ) sz = svg::getImgSize( doc );
			ev.add( "sz", jn( { (long)sz.first, (long)sz.second } ) );
			std::string o = "[";
			for( size_t i=0; i<fl.els.size(); i++ ) o += ( i ? "," : "" ) + fl.els[i];
			ev.add( "doc", o + "]" );
		}
		else if( n == "imp" ) {
			std::string o = "[";
			bool first = true;
			for( const auto& e: import( *im[k] ) ) {
				std::vector<long> v;
				switch( type( e ) ) {
					case Type::Circle: { CircleD c = fct::VariantUnwrapper{ e }; v = { f3( c.center().getX() ), f3( c.center().getY() ), f3( c.radius() ) }; } break;
					case Type::FRect: { FRectD c = fct::VariantUnwrapper{ e }; auto p = c.getPts(); v = { f3( p.first.getX() ), f3( p.first.getY() ), f3( p.second.getX() ), f3( p.second.getY() ) }; } break;
					case Type::Segment: { SegmentD c = fct::VariantUnwrapper{ e }; auto p = c.getPts(); v = { f3( p.first.getX() ), f3( p.first.getY() ), f3( p.second.getX() ), f3( p.second.getY() ) }; } break;
					case Type::Ellipse: { EllipseD c = fct::VariantUnwrapper{ e }; auto p = c.getCenter(); auto m = c.getMajMin(); v = { f3( p.getX() ), f3( p.getY() ), f3( m.first ), f3( m.second ), f3( c.angle()*180./M_PI ) }; } break;
					case Type::CPolyline: { CPolylineD c = fct::VariantUnwrapper{ e }; v = nums( c ); } break;
					case Type::OPolyline: { OPolylineD c = fct::VariantUnwrapper{ e }; v = nums( c ); } break;
					default: break;
				}
				o += std::string( first ? "" : "," ) + "{\"k\":\"" + getString( type( e ) ) + "\",\"n\":" + jn( v ) + "}";
				first = false;
			}
			ev.add( "v", o + "]" );
		}
		else if( n == "red" ) {
			auto j = op.i(), m = op.i();
			auto v = import( *im[k] );
			if( m ) draw( *im[j], v, *dp[m] ); else draw( *im[j], v );
		}
		else { std::fprintf( stderr, "unknown op %s\n", n.c_str() ); _exit(4); }
	});
}
int main( int argc, char** argv ) { if( argc > 2 ) g_file = std::string( argv[2] ) + ".svg"; return run( argc, argv, step ); }
