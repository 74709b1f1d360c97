// Conformance harness: images and shared pixel memory (C15, C16).
#include "hcommon.h"
#include <vital/types/image_container.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
typedef image::byte byte;

static std::vector< int > calls;
static byte rec( byte v ) { calls.push_back( v ); return v; }
static byte f_neg( byte const& v ) { return 255 - rec( v ); }
static byte f_inc( byte const& v ) { return rec( v ) + 1; }
static byte f_seven( byte const& v ) { rec( v ); return 7; }
static byte f_id( byte const& v ) { return rec( v ); }

int main( int argc, char** argv )
{
  hc::runner R;
  std::map< std::string, image > im;
  struct block { int id; std::weak_ptr< image_memory > w; };
  std::vector< block > blocks;
  int next = 1;
  std::vector< byte > ext;
  auto I = []( std::string const& s ) { return atoi( s.c_str() ); };
  auto pattern = []( byte* p, int m, size_t n ) { for( size_t i = 0; i < n; ++i ) { p[i] = ( m * 37 + i * 11 ) % 256; } };
  auto token = [&]( image const& x ) -> int {
    auto const m = x.memory();
    if( !m ) { return x.first_pixel() ? 0 : -1; }
    for( auto& b : blocks ) { if( b.w.lock() == m ) { return b.id; } }
    return -2;
  };
  // names the block of x if it is a new one; returns whether it is
  auto adopt = [&]( image const& x ) {
    if( token( x ) != -2 ) { return false; }
    blocks.push_back( block{ next++, x.memory() } );
    return true;
  };
  auto mem = [&]( ev& e ) {
    std::string o = "[{\"m\":0,\"b\":[";
    for( size_t i = 0; i < ext.size(); ++i ) { o += ( i ? "," : "" ) + std::to_string( ext[i] ); }
    o += "]}";
    for( auto& b : blocks )
    {
      auto m = b.w.lock();
      if( !m ) { continue; }
      byte const* p = (byte const*) m->data();
      o += ",{\"m\":" + std::to_string( b.id ) + ",\"b\":[";
      for( size_t i = 0; i < m->size(); ++i ) { o += ( i ? "," : "" ) + std::to_string( p[i] ); }
      o += "]}";
    }
    e.raw( "mem", o + "]" );
  };
  auto geo = [&]( ev& e, std::string const& h ) {
    image const& x = im[h];
    e.s( "i", h );
    int t = token( x );
    long o = t == -1 || t == -2 ? 0 : t == 0 ? x.first_pixel() - ext.data() : x.first_pixel() - (byte const*) im[h].memory()->data();
    e.il( "g", std::vector< long >{ o, (long) x.width(), (long) x.height(), (long) x.depth(), (long) x.w_step(), (long) x.h_step(), (long) x.d_step() } );
    e.i( "m", t ).i( "size", x.size() );
    mem( e );
  };
  auto bytes = [&]( image& x ) { return (byte*) x.memory()->data(); };

  R.on_reset = [&] { im.clear(); blocks.clear(); next = 1; ext.resize( 48 ); pattern( ext.data(), 0, 48 ); };
  R.ops["null"] = [&]( args_t const& a, ev& e ) { im[a[1]] = image(); geo( e, a[1] ); };
  R.ops["new"] = [&]( args_t const& a, ev& e ) {
    image& x = im[a[1]];
    x = image( I( a[2] ), I( a[3] ), I( a[4] ), a[5] == "1" );
    if( adopt( x ) ) { pattern( bytes( x ), token( x ), x.size() ); }
    e.i( "w", I( a[2] ) ).i( "h", I( a[3] ) ).i( "d", I( a[4] ) ).t( "il", a[5] == "1" );
    geo( e, a[1] );
  };
  auto nums = [&]( args_t const& a, size_t k, ev& e ) {
    std::vector< int > v;
    for( ; k < a.size(); ++k ) { v.push_back( I( a[k] ) ); }
    e.il( "a", v );
    return v;
  };
  R.ops["ext"] = [&]( args_t const& a, ev& e ) {
    auto v = nums( a, 2, e );
    im[a[1]] = image( ext.data() + v[0], v[1], v[2], v[3], v[4], v[5], v[6] );
    geo( e, a[1] );
  };
  R.ops["view"] = [&]( args_t const& a, ev& e ) {
    auto v = nums( a, 3, e );
    image y = im[a[2]];
    e.s( "j", a[2] );
    im[a[1]] = image( y.memory(), y.first_pixel() + v[0], v[1], v[2], v[3], v[4], v[5], v[6] );
    y = image();
    geo( e, a[1] );
  };
  R.ops["copy"] = [&]( args_t const& a, ev& e ) { image y( im[a[2]] ); im.erase( a[1] ); im.insert( std::make_pair( a[1], y ) ); y = image(); e.s( "j", a[2] ); geo( e, a[1] ); };
  R.ops["assign"] = [&]( args_t const& a, ev& e ) { im[a[1]] = im[a[2]]; e.s( "j", a[2] ); geo( e, a[1] ); };
  R.ops["contain"] = [&]( args_t const& a, ev& e ) {
    {
      image_container_sptr c( new simple_image_container( im[a[2]] ) );
      im[a[1]] = c->get_image();
      if( c->width() != im[a[1]].width() || c->height() != im[a[1]].height() || c->depth() != im[a[1]].depth() || c->size() != im[a[1]].size() ) { e.t( "bad", true ); }
    }
    e.s( "j", a[2] );
    geo( e, a[1] );
  };
  R.ops["dup"] = [&]( args_t const& a, ev& e ) {
    {
      image y( im[a[2]] );
      auto m = std::make_shared< image_memory >( *y.memory() );
      im[a[1]] = image( m, (byte*) m->data() + ( y.first_pixel() - bytes( y ) ), y.width(), y.height(), y.depth(), y.w_step(), y.h_step(), y.d_step() );
    }
    adopt( im[a[1]] );
    e.s( "j", a[2] );
    geo( e, a[1] );
  };
  R.ops["mcopy"] = [&]( args_t const& a, ev& e ) { *im[a[1]].memory() = *im[a[2]].memory(); e.s( "j", a[2] ); geo( e, a[1] ); };
  R.ops["drop"] = [&]( args_t const& a, ev& e ) { im.erase( a[1] ); e.s( "i", a[1] ); mem( e ); };
  R.ops["set"] = [&]( args_t const& a, ev& e ) {
    image& x = im[a[1]];
    std::vector< int > p{ I( a[2] ), I( a[3] ), I( a[4] ) };
    std::string r = "ok";
    try
    {
      if( a[6] == "2" && p[2] == 0 ) { x( p[0], p[1] ) = I( a[5] ); }
      else { x( p[0], p[1], p[2] ) = I( a[5] ); }
    }
    catch( std::out_of_range const& ) { r = "range"; }
    e.s( "i", a[1] ).il( "p", p ).i( "v", I( a[5] ) ).s( "r", r );
    mem( e );
  };
  // writes the last pixel of the first row
  R.ops["setlast"] = [&]( args_t const& a, ev& e ) {
    e = ev( "set" );
    R.ops["set"]( args_t{ "set", a[1], std::to_string( im[a[1]].width() - 1 ), "0", "0", a[2], "2" }, e );
  };
  R.ops["get"] = [&]( args_t const& a, ev& e ) {
    image& x = im[a[1]];
    image const& c = x;
    std::vector< int > p{ I( a[2] ), I( a[3] ), I( a[4] ) };
    std::string r = "ok";
    int v = 0;
    try
    {
      if( a[5] == "2" && p[2] == 0 ) { v = c( p[0], p[1] ); }
      else if( a[5] == "m" ) { v = x( p[0], p[1], p[2] ); }
      else { v = c( p[0], p[1], p[2] ); }
    }
    catch( std::out_of_range const& ) { r = "range"; }
    e.s( "i", a[1] ).il( "p", p ).i( "v", v ).s( "r", r );
    mem( e );
  };
  R.ops["at"] = [&]( args_t const& a, ev& e ) {
    std::vector< int > p{ I( a[2] ), I( a[3] ) }, v;
    std::string r = "ok";
    try { rgb_color c = im[a[1]].at( p[0], p[1] ); v = { c.r, c.g, c.b }; }
    catch( std::out_of_range const& ) { r = "range"; }
    e.s( "i", a[1] ).il( "p", p ).il( "v", v ).s( "r", r );
    mem( e );
  };
  R.ops["copyfrom"] = [&]( args_t const& a, ev& e ) { im[a[1]].copy_from( im[a[2]] ); adopt( im[a[1]] ); e.s( "j", a[2] ); geo( e, a[1] ); };
  R.ops["resize"] = [&]( args_t const& a, ev& e ) {
    image& x = im[a[1]];
    x.set_size( I( a[2] ), I( a[3] ), I( a[4] ) );
    if( adopt( x ) ) { pattern( bytes( x ), token( x ), x.size() ); }
    e.i( "w", I( a[2] ) ).i( "h", I( a[3] ) ).i( "d", I( a[4] ) );
    geo( e, a[1] );
  };
  R.ops["equal"] = [&]( args_t const& a, ev& e ) { e.s( "i", a[1] ).s( "j", a[2] ).t( "v", equal_content( im[a[1]], im[a[2]] ) ); mem( e ); };
  R.ops["transform"] = [&]( args_t const& a, ev& e ) {
    calls.clear();
    transform_image( im[a[1]], a[2] == "neg" ? f_neg : a[2] == "inc" ? f_inc : a[2] == "seven" ? f_seven : f_id );
    e.s( "i", a[1] ).s( "f", a[2] ).il( "calls", calls );
    mem( e );
  };
  return R.main( argc, argv );
}
