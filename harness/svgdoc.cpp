// Interpreter for spec/SvgDoc.tla: SVG documents built element by element, then imported.
#define HOMOG2D_USE_SVG_IMPORT
#include "vh.hpp"
using namespace h2d;
using namespace vh;
static std::string body, rattr;
static int depth;
static svg::Visitor* vis;
// one number: format code, value in quarters; false: the attribute is absent
static bool num( Op& op, std::string& o ) {
	auto f = op.i(), v = op.i();
	char b[64];
	switch( f ) {
		case 1: std::snprintf( b, 64, "%.2f", v/4. ); break;
		case 2: std::snprintf( b, 64, " %g", v/4. ); break;
		case 3: std::snprintf( b, 64, "%g ", v/4. ); break;
		case 4: std::snprintf( b, 64, "%gpx", v/4. ); break;
		case 5: std::snprintf( b, 64, "%.6e", v/4. ); break;
		case 6: std::snprintf( b, 64, v<0 ? "%g" : "+%g", v/4. ); break;
		case 10: std::snprintf( b, 64, "abc" ); break;
		case 11: b[0] = 0; break;
		case 12: return false;
		default: std::snprintf( b, 64, "%g", v/4. );
	}
	o = b;
	return true;
}
static void att( std::vector<std::string>& at, const char* n, Op& op ) { std::string s; if( num( op, s ) ) at.push_back( std::string( " " ) + n + "=\"" + s + "\"" ); }
static std::string tok( long f, long v ) { char b[64]; if( f == 10 ) return "abc"; std::snprintf( b, 64, f == 1 ? "%.2f" : f == 5 ? "%.6e" : "%g", v/4. ); return b; }
// points: number of values; separator style; (format,value)*
static std::string points( Op& op, bool path, bool z ) {
	auto sep = op.i(), n = op.i();
	std::string o = sep == 5 ? " " : "";
	for( long k=0; k<n; k++ ) {
		auto f = op.i(), v = op.i();
		if( path && k % 2 == 0 ) o += k == 0 ? "M" : ( sep == 1 ? " L" : "L " );
		o += tok( f, v );
		if( k + 1 < n ) o += k % 2 == 0 ? ( path ? " " : sep == 1 ? " " : sep == 3 ? ", " : "," ) : ( sep == 2 ? "  " : sep == 4 ? "\n" : sep == 6 ? "," : " " );
	}
	if( path && z ) o += sep == 1 ? " z" : "Z";
	if( sep == 7 ) o += " ";
	return o;
}
static void shuffle( std::vector<std::string>& at, long how ) {
	if( how == 1 ) std::reverse( at.begin(), at.end() );
	else if( how == 2 && !at.empty() ) std::rotate( at.begin(), at.begin()+1, at.end() );
	if( how == 2 ) at.insert( at.begin(), " fill=\"none\" id=\"x1\"" ), at.push_back( " style=\"stroke:red\"" );
}
static std::string pq( const Point2d_<double>& p ) { return js( p ); }
static std::string shape( const CommonType_<double>& e ) {
	std::string n = "[]";
	switch( type( e ) ) {
		case Type::Circle: { CircleD c = fct::VariantUnwrapper{ e }; n = "[" + pq( c.center() ) + ",[" + js( fx( c.radius() ) ) + ",0]]"; } break;
		case Type::FRect: { FRectD c = fct::VariantUnwrapper{ e }; auto p = c.getPts(); n = jp( p.first, p.second ); } break;
		case Type::Segment: { SegmentD c = fct::VariantUnwrapper{ e }; auto p = c.getPts(); n = jp( p.first, p.second ); } break;
		case Type::Ellipse: { EllipseD c = fct::VariantUnwrapper{ e }; auto m = c.getMajMin(); n = "[" + pq( c.getCenter() ) + ",[" + js( fx( m.first ) ) + "," + js( fx( m.second ) ) + "],[" + js( fr( c.angle()*180./M_PI ) ) + ",0]]"; } break;
		case Type::CPolyline: { CPolylineD c = fct::VariantUnwrapper{ e }; n = jl( c.getPts() ); } break;
		case Type::OPolyline: { OPolylineD c = fct::VariantUnwrapper{ e }; n = jl( c.getPts() ); } break;
		default: break;
	}
	return std::string( "{\"k\":\"" ) + getString( type( e ) ) + "\",\"n\":" + n + "}";
}
static std::string shapes( const svg::Visitor& v ) { std::string o; for( const auto& e: v.get() ) o += ( o.empty() ? "" : "," ) + shape( e ); return "[" + o + "]"; }
static std::string text() { std::string s = "<?xml version=\"1.0\"?>\n<svg" + rattr + ">\n" + body; for( int k=0; k<depth; k++ ) s += "</g>"; return s + "</svg>\n"; }
static void load( tinyxml2::XMLDocument& doc ) { auto s = text(); if( doc.Parse( s.c_str() ) != tinyxml2::XML_SUCCESS ) { std::fprintf( stderr, "not well formed: %s\n", s.c_str() ); _exit(4); } }
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) { body.clear(); rattr.clear(); depth = 0; delete vis; vis = new svg::Visitor; return; }
	guarded( ev, [&]{
		std::vector<std::string> at;
		if( n == "root" ) { auto h = op.i(); att( at, "width", op ); att( at, "height", op ); shuffle( at, h ); rattr.clear(); for( auto& a: at ) rattr += a; }
		else if( n == "opn" ) { body += "<g stroke=\"blue\">\n"; depth++; }
		else if( n == "cls" ) { if( depth == 0 ) throw Skip{}; body += "</g>\n"; depth--; }
		else if( n == "el" ) {
			auto k = op.i(), how = op.i();
			std::string name;
			switch( k ) {
				case 1: name = "circle"; att( at, "cx", op ); att( at, "cy", op ); att( at, "r", op ); break;
				case 2: name = "rect"; att( at, "x", op ); att( at, "y", op ); att( at, "width", op ); att( at, "height", op ); break;
				case 3: name = "line"; att( at, "x1", op ); att( at, "y1", op ); att( at, "x2", op ); att( at, "y2", op ); break;
				case 4: {
					name = "ellipse"; att( at, "cx", op ); att( at, "cy", op ); att( at, "rx", op ); att( at, "ry", op );
					auto t = op.i(), a = op.i(); auto x = tok( 0, op.i() ), y = tok( 0, op.i() ); auto d = std::to_string( a );
					std::string s;
					switch( t ) {
						case 1: s = "rotate(" + d + "," + x + "," + y + ")"; break;
						case 2: s = "rotate(" + d + ")"; break;
						case 3: s = "rotate(" + d + " " + x + " " + y + ")"; break;
						case 4: s = "turn(" + d + "," + x + "," + y + ")"; break;
						case 5: s = "rotate(abc," + x + "," + y + ")"; break;
						case 6: s = "rotate((" + d; break;
						case 7: s = ""; break;
						case 8: s = "rotate( " + d + " , " + x + " , " + y + " )"; break;
						case 9: s = "translate(" + x + "," + y + ")"; break;
						case 10: s = "rotate()"; break;
						case 11: s = "rotate("; break;
						case 12: s = "rotate(" + d + "," + x + ")"; break;
					}
					if( t ) at.push_back( " transform=\"" + s + "\"" );
				} break;
				case 5: case 6: { name = k == 5 ? "polygon" : "polyline"; auto p = op.i(); if( p ) at.push_back( " points=\"" + points( op, false, false ) + "\"" ); } break;
				case 7: { name = "path"; auto p = op.i(), z = op.i(); if( p ) at.push_back( " d=\"" + points( op, true, z ) + "\"" ); } break;
				default: { static const char* o[] = { "text", "title", "image", "circles", "Rect", "use" }; name = o[op.i()]; at.push_back( " x=\"1\" y=\"2\" r=\"3\" cx=\"1\" cy=\"4\" width=\"3\" height=\"4\"" ); }
			}
			shuffle( at, how );
			body += "<" + name;
			for( auto& a: at ) body += a;
			body += how == 1 ? "></" + name + ">\n" : how == 2 ? "><title>t</title></" + name + ">\n" : "/>\n";
		}
		else if( n == "imp" ) {          // a visitor of its own
			tinyxml2::XMLDocument doc; load( doc );
			svg::Visitor v;
			std::string r = "ok";
			try { doc.Accept( &v ); } catch( const std::exception& ) { r = "throw"; }
			ev.add( "s", js( r ) );
			ev.add( "v", shapes( v ) );
		}
		else if( n == "acc" ) {          // the visitor of the episode, which goes from one document to the next
			tinyxml2::XMLDocument doc; load( doc );
			std::string r = "ok";
			try { doc.Accept( vis ); } catch( const std::exception& ) { r = "throw"; }
			ev.add( "s", js( r ) );
			ev.add( "v", shapes( *vis ) );
			body.clear(); depth = 0;
		}
		else if( n == "size" ) {
			tinyxml2::XMLDocument doc; load( doc );
			auto s = svg::getImgSize( doc );
			ev.add( "v", "[" + js( fx( s.first ) ) + "," + js( fx( s.second ) ) + "]" );
		}
		else if( n == "prn" ) {
			tinyxml2::XMLDocument doc; load( doc );
			std::ostringstream os;
			auto b = std::cout.rdbuf( os.rdbuf() ); auto st = std::cout.rdstate(); std::cout.clear();
			try { svg::printFileAttrib( doc ); } catch( ... ) {}
			std::cout.rdbuf( b ); std::cout.clear( st );
			size_t c = 0; bool all = true;
			for( auto a = doc.RootElement()->FirstAttribute(); a; a = a->Next(), c++ ) all = all && os.str().find( std::string( a->Name() ) ) != std::string::npos && os.str().find( std::string( a->Value() ) ) != std::string::npos;
			ev.add( "all", js( all ) );
			long nl = 0; for( char ch: os.str() ) nl += ch == '\n';
			ev.add( "nl", js( nl ) ); ev.add( "c", js( c ) );
		}
		else if( n == "non" ) {          // a document that was never loaded
			tinyxml2::XMLDocument doc;
			auto k = op.i();
			if( k == 0 ) { svg::Visitor v; doc.Accept( &v ); ev.add( "v", js( v.get().size() ) ); }
			else if( k == 1 ) { svg::getImgSize( doc ); ev.add( "v", "1" ); }
			else { svg::printFileAttrib( doc ); ev.add( "v", "0" ); }
		}
		else { std::fprintf( stderr, "unknown op %s\n", n.c_str() ); _exit(4); }
	});
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
