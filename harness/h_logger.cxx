// Conformance harness for the logger (C21, C22). Output is captured at file-descriptor level.
#include "hcommon.h"
#include <vital/logger/logger.h>
#include <vital/logger/location_info.h>
#include <atomic>
#include <chrono>
#include <ctime>
#include <fcntl.h>
#include <thread>

using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

static hc::runner R;
static int nreset;
static std::map< kwiver_logger*, int > ids;
static std::vector< logger_handle_t > keep;

static std::string full( std::string const& n ) { return "s" + std::to_string( nreset ) + "." + n; }
static int idof( logger_handle_t h )
{
  keep.push_back( h );
  return ids.insert( std::make_pair( h.get(), (int) ids.size() ) ).first->second;
}
static std::string now()
{
  auto p = std::chrono::system_clock::now();
  long long ms = std::chrono::duration_cast< std::chrono::milliseconds >( p.time_since_epoch() ).count();
  time_t t = ms / 1000;
  struct tm m; localtime_r( &t, &m );
  char b[64], c[80];
  strftime( b, sizeof b, "%Y-%m-%d %H:%M:%S", &m );
  snprintf( c, sizeof c, "%s.%03d", b, (int) ( ms % 1000 ) );
  return c;
}
// run f with fd 2 redirected to a file; return the lines written
static std::vector< std::string > capture( std::function< void() > f )
{
  std::string fn = R.work + "/err";
  int fd = open( fn.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644 ), old = dup( 2 );
  std::cerr.flush();
  dup2( fd, 2 );
  f();
  std::cerr.flush();
  dup2( old, 2 );
  close( old ); close( fd );
  std::vector< std::string > l;
  std::ifstream in( fn.c_str() );
  std::string x;
  while( std::getline( in, x ) ) { l.push_back( x ); }
  return l;
}
struct job { std::string n, via, text; int sev; std::string loc; };

#define EACH( M ) M
static int macro_line;
static void emit( logger_handle_t h, job& j )
{
  std::string const& t = j.text;
  if( j.via == "msg" )
  {
    switch( j.sev )
    {
      case 2: h->log_trace( t ); break; case 3: h->log_debug( t ); break; case 4: h->log_info( t ); break;
      case 5: h->log_warn( t ); break; case 6: h->log_error( t ); break; case 7: h->log_fatal( t ); break;
    }
  }
  else if( j.via == "loc" )
  {
    logger_ns::location_info li( "/some/dir/src file.cxx", "void ns::C::m(int)", 42 );
    switch( j.sev )
    {
      case 2: h->log_trace( t, li ); break; case 3: h->log_debug( t, li ); break; case 4: h->log_info( t, li ); break;
      case 5: h->log_warn( t, li ); break; case 6: h->log_error( t, li ); break; case 7: h->log_fatal( t, li ); break;
    }
  }
  else if( j.via == "message" ) { h->log_message( (kwiver_logger::log_level_t) j.sev, t ); }
  else if( j.via == "messageloc" )
  {
    h->log_message( (kwiver_logger::log_level_t) j.sev, t, logger_ns::location_info( "src file.cxx", "f", 42 ) );
  }
  else if( j.via == "macro" )
  {
    switch( j.sev )
    {
      // keep all on one line: the location is recorded by line
      case 2: LOG_TRACE( h, t ); break; case 3: LOG_DEBUG( h, t << "" ); break; case 4: LOG_INFO( h, "" << t ); break; case 5: LOG_WARN( h, t ); break; case 6: LOG_ERROR( h, t ); break; case 7: h->log_fatal( t, KWIVER_LOGGER_SITE ); break; case 0: macro_line = __LINE__; break;
    }
  }
}
static std::string locof( std::string const& via )
{
  if( via == "loc" || via == "messageloc" ) { return "src file.cxx(42)"; }
  if( via == "macro" ) { return "h_logger.cxx(" + std::to_string( macro_line ) + ")"; }
  return "";
}

int main( int argc, char** argv )
{
  { job j; j.via = "macro"; j.sev = 0; emit( logger_handle_t(), j ); }
  R.on_reset = [] { ++nreset; };
  R.ops["get"] = []( args_t const& a, ev& e ) {
    auto h = a[2] == "s" ? get_logger( full( a[1] ) ) : get_logger( full( a[1] ).c_str() );
    std::string nm = h->get_name(), p = full( "" );
    e.s( "n", a[1] ).i( "id", idof( h ) ).s( "name", nm.compare( 0, p.size(), p ) == 0 ? nm.substr( p.size() ) : "?" + nm );
  };
  R.ops["cget"] = []( args_t const& a, ev& e ) {
    // arguments: threads, rounds, names...
    int nt = atoi( a[1].c_str() ), rounds = atoi( a[2].c_str() );
    std::vector< std::vector< std::pair< std::string, logger_handle_t > > > got( nt );
    std::vector< std::thread > th;
    std::atomic< int > ready( 0 );
    for( int t = 0; t < nt; ++t )
    {
      th.push_back( std::thread( [&, t] {
        ++ready; while( ready < nt ) {}
        for( int r = 0; r < rounds; ++r )
        {
          for( size_t i = 3; i < a.size(); ++i )
          {
            std::string n = a[3 + ( i + t ) % ( a.size() - 3 )];
            got[t].push_back( std::make_pair( n, get_logger( full( n ) ) ) );
          }
        }
      } ) );
    }
    for( auto& t : th ) { t.join(); }
    std::string o = "[";
    std::set< std::pair< std::string, int > > seen;
    for( auto const& g : got ) { for( auto const& p : g ) { seen.insert( std::make_pair( p.first, idof( p.second ) ) ); } }
    for( auto const& p : seen ) { o += std::string( o.size() > 1 ? "," : "" ) + "{\"n\":" + hc::js( p.first ) + ",\"id\":" + std::to_string( p.second ) + "}"; }
    e.raw( "gets", o + "]" );
  };
  R.ops["level"] = []( args_t const& a, ev& e ) {
    get_logger( full( a[1] ) )->set_level( (kwiver_logger::log_level_t) atoi( a[2].c_str() ) );
    e.s( "n", a[1] ).i( "v", atoi( a[2].c_str() ) );
  };
  R.ops["query"] = []( args_t const& a, ev& e ) {
    auto h = get_logger( full( a[1] ) );
    std::vector< int > on;
    if( a[2] == "m" ) { on = { h->is_trace_enabled(), h->is_debug_enabled(), h->is_info_enabled(), h->is_warn_enabled(), h->is_error_enabled(), h->is_fatal_enabled() }; }
    else { on = { IS_TRACE_ENABLED( h ), IS_DEBUG_ENABLED( h ), IS_INFO_ENABLED( h ), IS_WARN_ENABLED( h ), IS_ERROR_ENABLED( h ), IS_FATAL_ENABLED( h ) }; }
    e.s( "n", a[1] ).i( "lev", h->get_level() ).il( "on", on );
  };
  R.ops["lname"] = []( args_t const& a, ev& e ) {
    int v = atoi( a[1].c_str() );
    e.i( "v", v ).s( "r", get_logger( "x" )->get_level_string( (kwiver_logger::log_level_t) v ) );
  };
  R.ops["log"] = []( args_t const& a, ev& e ) {
    job j; j.n = a[1]; j.sev = atoi( a[2].c_str() ); j.via = a[3]; j.text = a[4];
    auto h = get_logger( full( j.n ) );
    std::string t0 = now();
    auto lines = capture( [&] { emit( h, j ); } );
    std::string t1 = now();
    e.s( "n", j.n ).i( "sev", j.sev ).s( "loc", locof( j.via ) ).s( "text", j.text ).s( "t0", t0 ).s( "t1", t1 ).sl( "lines", lines );
  };
  R.ops["loc"] = []( args_t const& a, ev& e ) {
    logger_ns::location_info li( a[1].c_str(), a[2].c_str(), atoi( a[3].c_str() ) );
    std::vector< std::string > r = { li.get_file_name(), li.get_file_path(), li.get_signature(), li.get_method_name(), li.get_class_name(), std::to_string( li.get_line_number() ) };
    e.s( "f", a[1] ).s( "m", a[2] ).s( "line", a[3] ).sl( "r", r );
  };
  R.ops["clog"] = []( args_t const& a, ev& e ) {
    // arguments: groups of (thread, name, severity, via, text); optional leading level changer name
    std::vector< std::vector< job > > jobs;
    for( size_t i = 1; i + 4 < a.size(); i += 5 )
    {
      size_t t = atoi( a[i].c_str() );
      if( jobs.size() <= t ) { jobs.resize( t + 1 ); }
      job j; j.n = a[i + 1]; j.sev = atoi( a[i + 2].c_str() ); j.via = a[i + 3]; j.text = a[i + 4];
      jobs[t].push_back( j );
    }
    std::atomic< int > ready( 0 );
    auto lines = capture( [&] {
      std::vector< std::thread > th;
      for( size_t t = 0; t < jobs.size(); ++t )
      {
        th.push_back( std::thread( [&, t] {
          ++ready; while( ready < (int) jobs.size() ) {}
          for( auto& j : jobs[t] ) { emit( get_logger( full( j.n ) ), j ); }
        } ) );
      }
      for( auto& t : th ) { t.join(); }
    } );
    std::string o = "[";
    for( size_t t = 0; t < jobs.size(); ++t )
    {
      o += t ? ",[" : "[";
      for( size_t i = 0; i < jobs[t].size(); ++i )
      {
        job& j = jobs[t][i];
        o += ( i ? ",{\"n\":" : "{\"n\":" ) + hc::js( j.n ) + ",\"sev\":" + std::to_string( j.sev ) + ",\"loc\":" + hc::js( locof( j.via ) ) + ",\"text\":" + hc::js( j.text ) + "}";
      }
      o += "]";
    }
    e.raw( "jobs", o + "]" ).sl( "lines", lines );
  };
  R.ops["race"] = []( args_t const& a, ev& e ) {
    // level changes while others log: recorded as the final level set
    std::vector< std::thread > th;
    auto lines = capture( [&] {
      for( int t = 0; t < 3; ++t )
      {
        th.push_back( std::thread( [&, t] {
          auto h = get_logger( full( a[1] ) );
          for( int i = 0; i < 50; ++i ) { if( t == 0 ) { h->set_level( (kwiver_logger::log_level_t)( 2 + i % 6 ) ); } else { LOG_WARN( h, "r" << i ); h->get_level(); } }
        } ) );
      }
      for( auto& t : th ) { t.join(); }
    } );
    get_logger( full( a[1] ) )->set_level( (kwiver_logger::log_level_t) 4 );
    e = ev( "level" );
    e.s( "n", a[1] ).i( "v", 4 );
  };
  return R.main( argc, argv );
}
