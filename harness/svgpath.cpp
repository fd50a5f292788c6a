// Interpreter for spec/SvgPath.tla: path strings given as character codes.
#define HOMOG2D_USE_SVG_IMPORT
#include "vh.hpp"
using namespace h2d;
using namespace vh;
template<typename V> static std::string jpts( const V& v ) { return jl( v ); }
static std::string esc( const std::string& s ) {
	std::string o;
	for( char c: s )
		switch( c ) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break;
			case '\t': o += "&#9;"; break; case '\n': o += "&#10;"; break; case '\r': o += "&#13;"; break; default: o += c; }
	return o;
}
static void step( Op& op, Ev& ev ) {
	const auto& n = op.name;
	if( n == "begin" ) return;
	guarded( ev, [&]{
		std::string s;
		while( op.more() ) s.push_back( (char)op.i() );
		if( n == "path" ) {
			auto r = svg::svgp::parsePath( s.c_str() );
			std::string o = "[";
			for( size_t k=0; k<r.first.size(); k++ ) o += ( k ? "," : "" ) + jpts( r.first[k] );
			ev.add( "v", o + "]" );
			ev.add( "z", js( r.second ) );
		}
		else if( n == "imp" ) {
			std::string d = "<svg width=\"100\" height=\"100\"><circle cx=\"1\" cy=\"2\" r=\"3\"/><path d=\"" + esc( s ) + "\"/><rect x=\"1\" y=\"1\" width=\"2\" height=\"3\"/></svg>";
			tinyxml2::XMLDocument doc;
			if( doc.Parse( d.c_str() ) != tinyxml2::XML_SUCCESS ) throw Skip{};
			svg::Visitor vis;
			doc.Accept( &vis );
			const auto& data = vis.get();
			std::string o = "[", k = "[";
			for( size_t i=1; i+1<data.size(); i++ ) {
				k += std::string( i>1 ? "," : "" ) + "\"" + getString( type( data[i] ) ) + "\"";
				o += i>1 ? "," : "";
				if( type( data[i] ) == Type::CPolyline ) { CPolylineD p = fct::VariantUnwrapper{ data[i] }; o += jpts( p.getPts() ); }
				else if( type( data[i] ) == Type::OPolyline ) { OPolylineD p = fct::VariantUnwrapper{ data[i] }; o += jpts( p.getPts() ); }
				else o += "[]";
			}
			ev.add( "v", o + "]" ); ev.add( "k", k + "]" );
			ev.add( "first", js( data.empty() ? std::string("none") : std::string( getString( type( data.front() ) ) ) ) );
			ev.add( "last", js( data.empty() ? std::string("none") : std::string( getString( type( data.back() ) ) ) ) );
		}
		else { std::fprintf( stderr, "unknown op %s\n", n.c_str() ); _exit(4); }
	});
}
int main( int argc, char** argv ) { return run( argc, argv, step ); }
