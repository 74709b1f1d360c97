// Shared plumbing of the conformance harnesses: script reading and event (ndjson) writing.
// The harnesses contain no oracle: they perform operations and record what was observed.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>

namespace hc {
typedef std::vector< std::string > args_t;

inline std::string unesc( std::string const& s )
{
  std::string o;
  for( size_t i = 0; i < s.size(); ++i )
  {
    if( s[i] == '\\' && i + 1 < s.size() )
    {
      if( s[i + 1] == '\\' ) { o += '\\'; ++i; }
      else if( s[i + 1] == 'x' ) { o += (char) strtol( s.substr( i + 2, 2 ).c_str(), 0, 16 ); i += 3; }
    }
    else { o += s[i]; }
  }
  return o;
}

inline std::string js( std::string const& s )
{
  std::string o = "\"";
  char b[8];
  for( unsigned char c : s )
  {
    if( c == '"' || c == '\\' ) { o += '\\'; o += (char) c; }
    else if( c < 32 || c > 126 ) { snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
    else { o += (char) c; }
  }
  return o + "\"";
}

// one event being built
struct ev
{
  std::string b;
  explicit ev( std::string const& op ) { b = "{\"op\":" + js( op ); }
  ev& s( char const* k, std::string const& v ) { b += ",\"" + std::string( k ) + "\":" + js( v ); return *this; }
  ev& i( char const* k, long long v ) { b += ",\"" + std::string( k ) + "\":" + std::to_string( v ); return *this; }
  ev& t( char const* k, bool v ) { b += ",\"" + std::string( k ) + "\":" + ( v ? "true" : "false" ); return *this; }
  ev& raw( char const* k, std::string const& v ) { b += ",\"" + std::string( k ) + "\":" + v; return *this; }
  ev& sl( char const* k, std::vector< std::string > const& v )
  {
    std::string o = "[";
    for( size_t n = 0; n < v.size(); ++n ) { o += ( n ? "," : "" ) + js( v[n] ); }
    return raw( k, o + "]" );
  }
  template< class T > ev& il( char const* k, std::vector< T > const& v )
  {
    std::string o = "[";
    for( size_t n = 0; n < v.size(); ++n ) { o += ( n ? "," : "" ) + std::to_string( (long long) v[n] ); }
    return raw( k, o + "]" );
  }
};

struct runner
{
  FILE* out;
  bool child = false;
  std::string work;
  bool fork_each = false; // run every script in a process of its own
  std::function< void() > on_reset;
  std::map< std::string, std::function< void( args_t const&, ev& ) > > ops;

  void emit( ev const& e )
  {
    fputs( e.b.c_str(), out );
    fputs( "}\n", out );
    fflush( out );
  }

  // usage: harness SCRIPT OUT WORKDIR
  int main( int argc, char** argv )
  {
    int o = argc - 3;
    std::ifstream in( argv[o] );
    out = fopen( argv[o + 1], "w" );
    work = argv[o + 2];
    std::string text;
    std::vector< std::string > lines;
    while( std::getline( in, text ) ) { lines.push_back( text ); }
    in.close();
    for( size_t n = 0; n < lines.size(); ++n )
    {
      std::string const& line = lines[n];
      args_t a;
      size_t p = 0;
      while( true )
      {
        size_t q = line.find( '\t', p );
        a.push_back( unesc( line.substr( p, q == std::string::npos ? std::string::npos : q - p ) ) );
        if( q == std::string::npos ) { break; }
        p = q + 1;
      }
      if( a[0] == "reset" )
      {
        if( fork_each )
        {
          if( child ) { fflush( 0 ); _exit( 0 ); }
          fflush( 0 );
          pid_t const k = fork();
          if( k )
          {
            int st = 0;
            waitpid( k, &st, 0 );
            if( st ) { return 4; } // reported by the caller, which goes on with the next script
            while( n + 1 < lines.size() && lines[n + 1].compare( 0, 5, "reset" ) ) { ++n; }
            continue;
          }
          child = true;
        }
        if( on_reset ) { on_reset(); }
        emit( ev( "reset" ).i( "n", atoll( a[1].c_str() ) ) );
        continue;
      }
      auto it = ops.find( a[0] );
      if( it == ops.end() ) { fprintf( stderr, "unknown op %s\n", a[0].c_str() ); return 3; }
      ev e( a[0] );
      it->second( a, e );
      emit( e );
    }
    if( child ) { fflush( 0 ); _exit( 0 ); }
    emit( ev( "end" ) );
    fclose( out );
    fflush( stdout );
    return 0;
  }
};
} // namespace hc
