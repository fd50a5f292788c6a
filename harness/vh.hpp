// Common part of all interpreters: reads scenarios, runs them on the real library through its
// public API, and records every observation as an ndjson trace.  It never judges anything.
//   usage: prog SCENARIO TRACE SCALE [FROM]
// SCENARIO: one operation per line, "op n n n ..." ; an episode starts with "begin ..."
// If an operation crashes (abort, signal, endless loop) the event is recorded with r="crash",
// and the process ends with code 77: the caller goes on with the next episode.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <array>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#ifndef VH_NO_H2D
#include "homog2d.hpp"
#endif
#ifndef FT
#define FT double
#endif
#ifndef GT            // "another" numeric type, for conversions and mixed operations
#define GT float
#endif

namespace vh {

struct Skip {};                     // thrown by an operation that does not apply
inline double g_scale = 1.;         // model coordinate 1 is g_scale in the library
inline int    g_fd = -1;
inline char   g_head[1<<14];         // start of the current event, for the crash handler
inline volatile long g_line = 0;

inline void emit( const std::string& s ) {
	size_t off = 0;
	while( off < s.size() ) {
		auto n = ::write( g_fd, s.data()+off, s.size()-off );
		if( n <= 0 ) _exit(3);
		off += n;
	}
}
inline std::string g_buf;
inline void flush() { emit( g_buf ); g_buf.clear(); }
inline void out( const std::string& s ) { g_buf += s; if( g_buf.size() > (1<<16) ) flush(); }

inline void onCrash( int ) {
	emit( g_buf );
	emit( std::string(g_head) + ",\"r\":\"crash\"}\n" );
	std::string l = std::to_string( g_line );
	l = "crash at line " + l + "\n";
	(void)!::write( 2, l.data(), l.size() );
	_exit(77);
}

// ---- values to JSON --------------------------------------------------------
const long BAD = 1000000007L;
template<typename T> long fxs( T v, long s ) {
	long double x = (long double)v;
	if( std::isnan(x) ) return BAD;
	x *= s;
	if( x >  1.0e9L ) return  1000000000L;
	if( x < -1.0e9L ) return -1000000000L;
	return std::llround( x );
}
template<typename T> long fx( T v )  { return fxs( (long double)v/g_scale, 10000 ); }                    // coordinate
template<typename T> long fa( T v )  { return fxs( (long double)v/g_scale/g_scale, 10000 ); }            // area
template<typename T> long fr( T v )  { return fxs( (long double)v, 10000 ); }                            // ratio
template<typename T> long fl( T v )  { return fxs( (long double)v/g_scale, 200 ); }                      // length
inline std::string js( bool b ) { return b ? "true" : "false"; }
inline std::string js( long v ) { return std::to_string(v); }
inline std::string js( int v ) { return std::to_string(v); }
inline std::string js( size_t v ) { return std::to_string(v); }
inline std::string js( const std::string& s ) { return "\"" + s + "\""; }
inline std::string js( const char* s ) { return std::string("\"") + s + "\""; }
#ifndef VH_NO_H2D
template<typename F> std::string js( const h2d::Point2d_<F>& p ) {
	return "[" + js(fx(p.getX())) + "," + js(fx(p.getY())) + "]";
}
template<typename F> std::string js( const h2d::FRect_<F>& r ) {
	auto p = r.getPts();
	return "[" + js(fx(p.first.getX())) + "," + js(fx(p.first.getY())) + "," + js(fx(p.second.getX())) + "," + js(fx(p.second.getY())) + "]";
}
template<typename F> std::string js( const h2d::Segment_<F>& s ) {
	auto p = s.getPts(); return "[" + js(p.first) + "," + js(p.second) + "]";
}
template<typename F> std::string js( const h2d::OSegment_<F>& s ) {
	auto p = s.getPts(); return "[" + js(p.first) + "," + js(p.second) + "]";
}
template<typename F> std::string js( const h2d::Circle_<F>& c ) {
	return "[" + js(fx(c.center().getX())) + "," + js(fx(c.center().getY())) + "," + js(fx(c.radius())) + "]";
}
#endif
template<typename C> std::string jl( const C& c ) {
	std::string o = "[";
	bool first = true;
	for( const auto& e: c ) { if( !first ) o += ","; first = false; o += js(e); }
	return o + "]";
}
template<typename A,typename B> std::string jp( const A& a, const B& b ) { return "[" + js(a) + "," + js(b) + "]"; }

// ---- one operation ---------------------------------------------------------
struct Op {
	std::string name;
	std::vector<long> a;
	size_t pos = 0;
	long i() { if( pos >= a.size() ) { std::fprintf(stderr,"missing argument for %s\n", name.c_str()); _exit(4); } return a[pos++]; }
	double c() { return (double)i() * g_scale; }     // a coordinate
	bool more() const { return pos < a.size(); }
};
// fields of the event are added by the interpreter
struct Ev {
	std::string s;
	void add( const char* k, const std::string& json ) { s += std::string(",\"") + k + "\":" + json; }
};

// runs f; adds "r":"ok"/"throw"/"skip"
template<typename Fn> void guarded( Ev& ev, Fn f ) {
	try { f(); ev.add( "r", "\"ok\"" ); }
	catch( const Skip& ) { ev.add( "r", "\"skip\"" ); }
	catch( const std::exception& ) { ev.add( "r", "\"throw\"" ); }
	catch( const std::string& ) { ev.add( "r", "\"throw\"" ); }
	catch( const char* ) { ev.add( "r", "\"throw\"" ); }
}
// a query: value as JSON, or "throw" recorded in the field
template<typename Fn> void query( Ev& ev, const char* key, Fn f ) {
	std::string v;
	bool ok = true;
	try { v = f(); } catch( const Skip& ) { throw; } catch( const std::exception& ) { ok = false; } catch( const std::string& ) { ok = false; }
	ev.add( (std::string(key)+"T").c_str(), ok ? "false" : "true" );
	if( ok ) ev.add( key, v );
}

// rank of the operation in the scenario: several forms of a call take turns
inline unsigned g_rank = 0;
inline bool alt( unsigned k=0 ) { return ( g_rank >> k ) & 1; }
inline int run( int argc, char** argv, std::function<void(Op&,Ev&)> step, std::function<void()> atBegin = []{} ) {
	if( argc < 4 ) return 2;
	std::ifstream f( argv[1] );
	g_fd = ::open( argv[2], O_WRONLY|O_CREAT|O_APPEND, 0644 );
	if( !f || g_fd < 0 ) return 2;
	g_scale = std::atof( argv[3] );
	long from = argc > 4 ? std::atol( argv[4] ) : 0;
	for( int s: { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM } ) std::signal( s, onCrash );
	// the library prints diagnostics on some paths: keep stdout/stderr of the library out of the way
	std::cout.setstate( std::ios::failbit );
	std::cerr.setstate( std::ios::failbit );
	std::string line;
	while( std::getline( f, line ) ) {
		g_line = g_line + 1;
		if( g_line <= from || line.empty() ) continue;
		std::istringstream is( line );
		Op op;
		is >> op.name;
		long v;
		while( is >> v ) op.a.push_back( v );
		std::string head = "{\"op\":\"" + op.name + "\",\"a\":[";
		for( size_t k=0; k<op.a.size(); k++ ) head += (k?",":"") + std::to_string( op.a[k] );
		head += "]";
		std::strncpy( g_head, head.c_str(), sizeof(g_head)-1 );
		alarm( 20 );
		Ev ev;
		g_rank = op.name == "begin" ? 0 : g_rank + 1;
		if( op.name == "begin" ) atBegin();
		step( op, ev );
		out( head + ev.s + "}\n" );
	}
	flush();
	return 0;
}
} // namespace vh
