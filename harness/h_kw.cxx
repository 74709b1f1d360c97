// Conformance harness for the bundled kwsys: base64 (C40), regular expressions (C41), path texts (C32).
#include "hcommon.h"
#include <vector>
#include <list>
#include <memory>
#include <kwsys/Base64.h>
#include <kwsys/RegularExpression.hxx>
#include <kwsys/SystemTools.hxx>
using hc::args_t;
using hc::ev;
static long long N( std::string const& s ) { return strtoll( s.c_str(), 0, 10 ); }

// ---------------------------------------------------------------- base64
typedef std::vector< unsigned char > bytes;
// exactly as large as it has to be, so that accesses outside show
struct exact
{
  unsigned char* p;
  explicit exact( size_t n ) : p( new unsigned char[n] ) { memset( p, 0xAA, n ); }
  explicit exact( bytes const& v ) : p( new unsigned char[v.size()] ) { if( !v.empty() ) { memcpy( p, v.data(), v.size() ); } }
  exact( exact const& ) = delete;
  ~exact() { delete[] p; }
};
static std::string list( unsigned char const* p, size_t n )
{
  std::string o = "[";
  for( size_t i = 0; i < n; ++i ) { o += ( i ? "," : "" ) + std::to_string( (int) p[i] ); }
  return o + "]";
}
static bytes rest( args_t const& a, size_t i )
{
  bytes o;
  for( ; i < a.size(); ++i ) { o.push_back( (unsigned char) N( a[i] ) ); }
  return o;
}
static size_t groups( size_t n ) { return ( n + 2 ) / 3; }
static void base64( hc::runner& R )
{
  auto encode = []( bytes const& v, bool mark ) {
    exact in( v );
    size_t const room = 4 * groups( v.size() ) + ( mark && v.size() % 3 == 0 ? 4 : 0 );
    exact out( room );
    size_t const n = kwsysBase64_Encode( in.p, v.size(), out.p, mark );
    return std::make_pair( n, bytes( out.p, out.p + std::min( n, room ) ) );
  };
  // asked for len bytes, or (-1) for all of the text
  auto decode = []( bytes const& t, long long len ) {
    exact in( t );
    size_t const room = len >= 0 ? len : 3 * ( ( t.size() + 3 ) / 4 );
    exact out( room );
    size_t const n = kwsysBase64_Decode( in.p, len >= 0 ? len : 0, out.p, len >= 0 ? 0 : t.size() );
    return list( out.p, std::min( n, room + 1 ) );
  };
  R.ops["enc"] = [=]( args_t const& a, ev& e ) {
    bytes const v = rest( a, 2 );
    auto const r = encode( v, a[1] == "1" );
    e.raw( "a", list( v.data(), v.size() ) ).t( "mark", a[1] == "1" ).i( "n", r.first ).s( "s", std::string( r.second.begin(), r.second.end() ) );
  };
  R.ops["round"] = [=]( args_t const& a, ev& e ) {
    bytes const v = rest( a, 2 );
    auto const r = encode( v, a[1] == "1" );
    e.raw( "a", list( v.data(), v.size() ) );
    // the text by itself has no bytes to decode when there are none
    e.raw( "bylen", decode( r.second, v.size() ) ).raw( "bytext", r.second.empty() ? "[]" : decode( r.second, -1 ) );
  };
  R.ops["dec"] = [=]( args_t const& a, ev& e ) {
    bytes const t( a[2].begin(), a[2].end() );
    e.s( "s", a[2] ).i( "len", N( a[1] ) ).raw( "b", decode( t, N( a[1] ) ) );
  };
  R.ops["dec3"] = [=]( args_t const& a, ev& e ) {
    bytes const t( a[1].begin(), a[1].end() );
    exact in( t ), out( 3 );
    int const n = kwsysBase64_Decode3( in.p, out.p );
    e.s( "s", a[1] ).raw( "b", list( out.p, std::min( n, 3 ) ) );
  };
}

// ---------------------------------------------------------------- regular expressions
static void regex( hc::runner& R )
{
  typedef kwsys::RegularExpression rx;
  static std::map< std::string, std::shared_ptr< rx > > xs;
  static std::map< std::string, char const* > searched; // text of the last search, per object
  static std::list< std::string > texts;
  R.on_reset = [] { xs.clear(); texts.clear(); searched.clear(); };
  auto shown = []( ev& e, rx const& x, char const* t ) {
    std::string g = "[";
    std::vector< std::string > m;
    long const len = (long) strlen( t );
    for( int n = 0; n < rx::NSUBEXP; ++n )
    {
      std::string::size_type a = x.start( n ), b = x.end( n );
      // a group that took no part has positions that are not positions
      bool const in = (long long) a >= 0 && (long long) a <= len && (long long) b >= 0 && (long long) b <= len;
      g += ( n ? "," : "" ) + ( in ? "[" + std::to_string( a ) + "," + std::to_string( b ) + "]" : std::string( "[-1,-1]" ) );
      if( n == 0 && in && ( a != x.start() || b != x.end() ) ) { g += ",\"start() or end() differ\""; }
      m.push_back( x.match( n ) );
    }
    e.raw( "g", g + "]" ).sl( "m", m );
  };
  R.ops["new"] = []( args_t const& a, ev& e ) { xs[a[1]].reset( new rx ); e.s( "h", a[1] ).t( "valid", xs[a[1]]->is_valid() ); };
  // handle pattern how: ctor, sctor, compile or scompile
  R.ops["comp"] = []( args_t const& a, ev& e ) {
    std::string const& how = a[3];
    std::shared_ptr< rx >& x = xs[a[1]];
    bool ok = false;
    if( how == "ctor" ) { x.reset( new rx( a[2].c_str() ) ); }
    else if( how == "sctor" ) { x.reset( new rx( a[2] ) ); }
    else
    {
      if( !x ) { x.reset( new rx ); }
      ok = how == "compile" ? x->compile( a[2].c_str() ) : x->compile( a[2] );
    }
    e.s( "h", a[1] ).s( "p", a[2] ).s( "how", how == "sctor" ? "ctor" : how == "scompile" ? "compile" : how ).t( "ok", ok ).t( "valid", x->is_valid() );
  };
  R.ops["find"] = [=]( args_t const& a, ev& e ) {
    rx& x = *xs[a[1]];
    texts.push_back( a[2] );
    char const* t = texts.back().c_str();
    bool const found = a.size() > 3 ? x.find( texts.back() ) : x.find( t );
    e.s( "h", a[1] ).s( "t", a[2] ).t( "found", found );
    searched[a[1]] = found ? t : 0;
    if( found ) { shown( e, x, t ); }
  };
  R.ops["show"] = [=]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).t( "valid", xs[a[1]]->is_valid() );
    if( searched[a[1]] ) { shown( e, *xs[a[1]], searched[a[1]] ); }
  };
  R.ops["copy"] = []( args_t const& a, ev& e ) {
    if( a.size() > 3 && xs.count( a[1] ) ) { *xs[a[1]] = *xs[a[2]]; } else { xs[a[1]].reset( new rx( *xs[a[2]] ) ); }
    searched[a[1]] = searched[a[2]];
    e.s( "h", a[1] ).s( "g", a[2] );
  };
  R.ops["inval"] = []( args_t const& a, ev& e ) { xs[a[1]]->set_invalid(); searched[a[1]] = 0; e.s( "h", a[1] ).t( "valid", xs[a[1]]->is_valid() ); };
  R.ops["eqv"] = []( args_t const& a, ev& e ) {
    bool const both = xs[a[1]]->is_valid() && xs[a[2]]->is_valid(); // nothing is said about others
    e.t( "both", both );
    if( both ) { e.s( "h", a[1] ).s( "g", a[2] ).t( "eq", *xs[a[1]] == *xs[a[2]] ).t( "ne", *xs[a[1]] != *xs[a[2]] ); }
  };
}

// ---------------------------------------------------------------- path texts
static void paths( hc::runner& R )
{
  typedef kwsys::SystemTools ST;
  R.on_reset = [] { setenv( "HOME", "", 1 ); unsetenv( "HOME" ); };
  R.ops["home"] = []( args_t const& a, ev& e ) {
    if( a[1].empty() ) { unsetenv( "HOME" ); } else { setenv( "HOME", a[1].c_str(), 1 ); }
    e.s( "d", a[1] );
  };
  R.ops["collapse"] = []( args_t const& a, ev& e ) {
    std::string base = a[2], r;
    if( a.size() > 3 && a[3] == "s" ) { r = ST::CollapseFullPath( a[1], base ); }
    else if( a.size() > 3 && a[3] == "cwd" )
    {
      char b[4096];
      base = getcwd( b, sizeof b );
      r = ST::CollapseFullPath( a[1] );
    }
    else { r = ST::CollapseFullPath( a[1], base.c_str() ); }
    e.s( "p", a[1] ).s( "base", base ).s( "r", r ).s( "again", ST::CollapseFullPath( r, "/other" ) );
  };
  R.ops["split"] = []( args_t const& a, ev& e ) {
    std::vector< std::string > c( 2, "left over" );
    ST::SplitPath( a[1], c, a[2] == "1" );
    e.s( "p", a[1] ).t( "expand", a[2] == "1" ).sl( "c", c ).s( "join", ST::JoinPath( c ) );
  };
  R.ops["join"] = []( args_t const& a, ev& e ) {
    std::vector< std::string > const c( a.begin() + 1, a.end() );
    e.sl( "c", c ).s( "r", ST::JoinPath( c.begin(), c.end() ) );
  };
  R.ops["parts"] = []( args_t const& a, ev& e ) {
    std::string const& p = a[1];
    e.s( "p", p ).s( "dir", ST::GetFilenamePath( p ) ).s( "name", ST::GetFilenameName( p ) ).s( "ext", ST::GetFilenameExtension( p ) );
    e.s( "lext", ST::GetFilenameLastExtension( p ) ).s( "stem", ST::GetFilenameWithoutExtension( p ) ).s( "lstem", ST::GetFilenameWithoutLastExtension( p ) );
    e.s( "parent", ST::GetParentDirectory( p ) ).t( "full", ST::FileIsFullPath( p ) );
    if( ST::FileIsFullPath( p ) != ST::FileIsFullPath( p.c_str() ) ) { abort(); }
  };
  R.ops["unix"] = []( args_t const& a, ev& e ) { std::string p = a[1]; ST::ConvertToUnixSlashes( p ); e.s( "p", a[1] ).s( "r", p ); };
  R.ops["below"] = []( args_t const& a, ev& e ) { e.s( "p", a[1] ).s( "d", a[2] ).t( "r", ST::IsSubDirectory( a[1], a[2] ) ); };
  R.ops["rel"] = []( args_t const& a, ev& e ) {
    e.s( "p", a[1] ).s( "d", a[2] ).t( "full", ST::FileIsFullPath( a[1] ) && ST::FileIsFullPath( a[2] ) ).s( "r", ST::RelativePath( a[1], a[2] ) );
  };
}

// usage: h_kw FAMILY SCRIPT OUT WORK
int main( int argc, char** argv )
{
  hc::runner R;
  std::string const f = argv[1];
  if( f == "b64" ) { base64( R ); }
  if( f == "regex" ) { regex( R ); }
  if( f == "path" ) { paths( R ); }
  return R.main( argc, argv );
}
