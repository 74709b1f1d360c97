// Conformance harness: text helpers, command lines, lines of streams, format lengths, the environment (C42).
#include "hcommon.h"
#include <cstdarg>
#include <ctime>
#include <memory>
#include <sys/stat.h>
#include <kwsys/SystemTools.hxx>
#include <kwsys/System.h>
using hc::args_t;
using hc::ev;
typedef kwsys::SystemTools st;
static std::string const NUL = "<null>";
static char const* cp( std::string const& s ) { return s == NUL ? nullptr : s.c_str(); }
static std::string own( char* p ) { if( !p ) { return NUL; } std::string r( p ); delete[] p; return r; }
static std::string rle( std::string const& s )
{
  std::string o = "[";
  for( size_t i = 0; i < s.size(); )
  {
    size_t j = i;
    while( j < s.size() && s[j] == s[i] ) { ++j; }
    o += std::string( i ? "," : "" ) + "[" + std::to_string( (unsigned char) s[i] ) + "," + std::to_string( j - i ) + "]";
    i = j;
  }
  return o + "]";
}
static int estimate( char const* f, ... ) { va_list a; va_start( a, f ); int const r = st::EstimateFormatLength( f, a ); va_end( a ); return r; }
static int real( char const* f, ... ) { va_list a; va_start( a, f ); int const r = vsnprintf( nullptr, 0, f, a ); va_end( a ); return r; }
struct item { char kind; long n; double d; std::string s; };
template< class... A > struct go
{
  static void run( std::vector< item > const& v, size_t k, char const* f, int& x, int& y, A... a )
  {
    if( k == v.size() ) { x = estimate( f, a... ); y = real( f, a... ); return; }
    next( v, k, f, x, y, std::integral_constant< bool, ( sizeof...( A ) < 4 ) >(), a... );
  }
  static void next( std::vector< item > const& v, size_t k, char const* f, int& x, int& y, std::true_type, A... a )
  {
    item const& i = v[k];
    if( i.kind == 'i' ) { go< A..., int >::run( v, k + 1, f, x, y, a..., (int) i.n ); }
    else if( i.kind == 'l' ) { go< A..., long >::run( v, k + 1, f, x, y, a..., i.n ); }
    else if( i.kind == 'f' ) { go< A..., double >::run( v, k + 1, f, x, y, a..., i.d ); }
    else { go< A..., char const* >::run( v, k + 1, f, x, y, a..., i.s.c_str() ); }
  }
  static void next( std::vector< item > const&, size_t, char const*, int&, int&, std::false_type, A... ) { abort(); }
};

int main( int argc, char** argv )
{
  hc::runner R;
  std::unique_ptr< std::istringstream > in;
  std::string base;
  int n = 0;
  setenv( "TZ", "UTC", 1 );
  R.on_reset = [&]() {
    in.reset();
    base = R.work + "/t" + std::to_string( n++ );
    mkdir( base.c_str(), 0755 );
    mkdir( ( base + "/bin" ).c_str(), 0755 );
    mkdir( ( base + "/dir" ).c_str(), 0755 );
    for( char const* f : { "prog", "a b", "c", "prog x" } ) { std::ofstream( base + "/" + f ) << "x"; }
    for( char const* f : { "bin/tool", "bin/to ol" } ) { std::ofstream( base + "/" + f ) << "x"; chmod( ( base + "/" + f ).c_str(), 0755 ); }
    if( chdir( base.c_str() ) ) { abort(); }
    setenv( "PATH", ( base + "/bin" ).c_str(), 1 );
    for( char const* k : { "VPA", "VPB", "VPC", "VPA1" } ) { unsetenv( k ); }
  };
  R.ops["repl"] = [&]( args_t const& a, ev& e ) {
    std::string x = a[1], y = a[1];
    st::ReplaceString( x, a[2], a[3] == NUL ? "" : a[3] );
    st::ReplaceString( y, a[2].c_str(), cp( a[3] ) );
    e.s( "s", a[1] ).s( "x", a[2] ).s( "y", a[3] ).s( "r", x ).s( "r2", y );
  };
  R.ops["case"] = [&]( args_t const& a, ev& e ) {
    e.s( "s", a[1] ).s( "cap", st::Capitalized( a[1] ) ).s( "capw", st::CapitalizedWords( a[1] ) ).s( "uncapw", st::UnCapitalizedWords( a[1] ) ).s( "low", st::LowerCase( a[1] ) )
      .s( "up", st::UpperCase( a[1] ) ).s( "sp", st::AddSpaceBetweenCapitalizedWords( a[1] ) ).s( "id", st::MakeCidentifier( a[1] ) );
  };
  R.ops["chars"] = [&]( args_t const& a, ev& e ) { // text set char
    std::string buf = a[1] == NUL ? "" : a[1];
    std::vector< char > b( buf.c_str(), buf.c_str() + buf.size() + 1 );
    char* p = a[1] == NUL ? nullptr : b.data();
    bool const same = st::ReplaceChars( p, a[2].c_str(), a[3][0] ) == p;
    e.s( "s", a[1] ).s( "set", a[2] ).s( "c", a[3] ).i( "count", st::CountChar( cp( a[1] ), a[3][0] ) ).s( "rem", own( st::RemoveChars( cp( a[1] ), a[2].c_str() ) ) )
      .s( "hex", own( st::RemoveCharsButUpperHex( cp( a[1] ) ) ) ).s( "rep", p ? std::string( p ) : NUL ).t( "same", same ).s( "esc", st::EscapeChars( cp( a[1] ), a[2].c_str(), a[3][0] ) )
      .s( "esc0", st::EscapeChars( cp( a[1] ), nullptr ) ).s( "escd", st::EscapeChars( cp( a[1] ), a[2].c_str() ) );
  };
  R.ops["find"] = [&]( args_t const& a, ev& e ) {
    char const* s = cp( a[1] );
    char const* t = cp( a[2] );
    char const* l = st::FindLastString( s, t );
    std::string const str = s ? s : "";
    int const c = s && t ? st::Strucmp( s, t ) : 0;
    e.s( "s", a[1] ).s( "x", a[2] ).t( "st", st::StringStartsWith( s, t ) ).t( "en", st::StringEndsWith( s, t ) ).t( "st2", st::StringStartsWith( str, t ) ).t( "en2", st::StringEndsWith( str, t ) )
      .i( "last", l ? l - s : -1 ).i( "cmp", c < 0 ? -1 : c > 0 );
  };
  R.ops["join"] = [&]( args_t const& a, ev& e ) {
    e.sl( "p", { a[1], a[2], a[3] } ).s( "two", own( st::AppendStrings( cp( a[1] ), cp( a[2] ) ) ) ).s( "three", own( st::AppendStrings( cp( a[1] ), cp( a[2] ), cp( a[3] ) ) ) ).s( "dup", own( st::DuplicateString( cp( a[1] ) ) ) );
  };
  R.ops["crop"] = [&]( args_t const& a, ev& e ) { e.s( "s", a[1] ).i( "n", atol( a[2].c_str() ) ).s( "r", st::CropString( a[1], atol( a[2].c_str() ) ) ); };
  R.ops["split"] = [&]( args_t const& a, ev& e ) { // text separator held...
    std::vector< std::string > h( a.begin() + 3, a.end() ), x = h, y = h, p, q;
    bool const rx = st::Split( a[1], x ), ry = st::Split( a[1], y, a[2][0] );
    for( auto const& w : st::SplitString( a[1], a[2][0], false ) ) { p.push_back( w ); }
    for( auto const& w : st::SplitString( a[1], a[2][0], true ) ) { q.push_back( w ); }
    e.s( "s", a[1] ).s( "c", a[2] ).sl( "h", h ).sl( "x", x ).t( "rx", rx ).sl( "y", y ).t( "ry", ry ).sl( "p", p ).sl( "q", q );
  };
  R.ops["out"] = [&]( args_t const& a, ev& e ) {
    e.s( "s", a[1] ).s( "u", st::ConvertToUnixOutputPath( a[1] ) ).s( "w", st::ConvertToWindowsOutputPath( a[1] ) ).s( "o", st::ConvertToOutputPath( a[1] ) );
  };
  // a command line: pieces repeated: text count ...
  R.ops["cmdline"] = [&]( args_t const& a, ev& e ) {
    std::string s;
    for( size_t i = 2; i + 1 < a.size(); i += 2 ) { for( int k = atoi( a[i + 1].c_str() ); k; --k ) { s += a[i]; } }
    char* const exact = strdup( s.c_str() );
    char** r = kwsysSystem_Parse_CommandForUnix( exact, atoi( a[1].c_str() ) );
    free( exact );
    std::string o = "[";
    bool const null = !r;
    for( char** i = r; i && *i; ++i ) { o += ( i == r ? "" : "," ) + rle( *i ); free( *i ); }
    free( r );
    e.raw( "s", rle( s ) ).i( "flags", atoi( a[1].c_str() ) ).t( "null", null ).raw( "r", o + "]" );
  };
  // a stream: char-code count ...
  R.ops["sopen"] = [&]( args_t const& a, ev& e ) {
    std::string s;
    for( size_t i = 1; i + 1 < a.size(); i += 2 ) { s.append( atoi( a[i + 1].c_str() ), (char) atoi( a[i].c_str() ) ); }
    in.reset( new std::istringstream( s ) );
    e.raw( "s", rle( s ) );
  };
  R.ops["sline"] = [&]( args_t const& a, ev& e ) { // limit or "", asks for the newline
    std::string l = "left";
    bool nl = false;
    bool const ask = a[2] == "1";
    bool const r = a[1].empty() ? ask ? st::GetLineFromStream( *in, l, &nl ) : st::GetLineFromStream( *in, l ) : st::GetLineFromStream( *in, l, ask ? &nl : nullptr, atol( a[1].c_str() ) );
    e.i( "lim", a[1].empty() ? -1 : atol( a[1].c_str() ) ).t( "ask", ask ).t( "r", r ).t( "nl", nl ).raw( "l", rle( l ) );
  };
  // pieces: "t" text | conversion, value : %flags width .prec kind
  R.ops["fmt"] = [&]( args_t const& a, ev& e ) {
    std::string f, o = "[";
    std::vector< item > v;
    for( size_t i = 1; i + 4 < a.size(); i += 5 )
    {
      std::string const k = a[i], val = a[i + 1], w = a[i + 2], p = a[i + 3], how = a[i + 4];
      o += std::string( i > 1 ? "," : "" ) + "{\"k\":" + hc::js( k ) + ",\"v\":" + hc::js( val ) + ",\"w\":" + std::to_string( w.empty() ? -1 : atoi( w.c_str() ) ) + ",\"p\":" + std::to_string( p.empty() ? -1 : atoi( p.c_str() ) ) + "}";
      if( k == "t" ) { f += val; continue; }
      if( k == "%" ) { f += "%%"; continue; }
      f += "%";
      if( !w.empty() ) { if( how == "*" ) { f += "*"; v.push_back( item{ 'i', atol( w.c_str() ), 0, "" } ); } else { f += how + w; } }
      if( !p.empty() ) { f += "." + p; }
      f += k;
      char const c = k[k.size() - 1];
      if( c == 's' ) { v.push_back( item{ 's', 0, 0, val } ); }
      else if( c == 'f' || c == 'e' || c == 'g' ) { v.push_back( item{ 'f', 0, atof( val.c_str() ), "" } ); }
      else { v.push_back( item{ k.size() > 1 ? 'l' : 'i', atol( val.c_str() ), 0, "" } ); }
    }
    int x = 0, y = 0;
    go<>::run( v, 0, f.c_str(), x, y );
    e.s( "f", f ).raw( "q", o + "]" ).i( "est", x ).i( "real", y );
  };
  R.ops["date"] = [&]( args_t const& a, ev& e ) { // date|stamp text
    time_t t = 7;
    char* const exact = a[2] == NUL ? nullptr : strdup( a[2].c_str() );
    bool const r = a[1] == "date" ? st::ConvertDateMacroString( exact, &t ) : st::ConvertTimeStampMacroString( exact, &t );
    free( exact );
    long d = t / 86400, s = t % 86400;
    if( s < 0 ) { s += 86400; --d; }
    e.s( "k", a[1] ).s( "s", a[2] ).t( "r", r ).i( "d", d ).i( "sec", s );
  };
  R.ops["env"] = [&]( args_t const& a, ev& e ) { // put|unput text
    bool const r = a[1] == "put" ? st::PutEnv( a[2] ) : st::UnPutEnv( a[2] );
    e.s( "k", a[1] ).s( "s", a[2] ).t( "r", r );
  };
  R.ops["getenv"] = [&]( args_t const& a, ev& e ) {
    std::string v = "left", w = "left";
    char const* p = st::GetEnv( a[1].c_str() );
    char const* q = st::GetEnv( a[1] );
    bool const r = st::GetEnv( a[1].c_str(), v ), r2 = st::GetEnv( a[1], w );
    char const* g = getenv( a[1].c_str() );
    e.s( "k", a[1] ).t( "has", r ).t( "has2", r2 ).s( "v", v ).s( "w", w ).s( "p", p ? p : NUL ).s( "q", q ? q : NUL ).s( "g", g ? g : NUL );
  };
  R.ops["path"] = [&]( args_t const& a, ev& e ) { // name held...
    std::vector< std::string > h( a.begin() + 2, a.end() ), x = h;
    st::GetPath( x, a[1].c_str() );
    e.s( "k", a[1] ).sl( "h", h ).sl( "x", x );
  };
  R.ops["progargs"] = [&]( args_t const& a, ev& e ) {
    std::string p = "left", q = "left";
    st::SplitProgramFromArgs( a[1], p, q );
    if( p.compare( 0, base.size() + 1, base + "/" ) == 0 ) { p = "/" + p.substr( base.size() + 1 ); }
    e.s( "s", a[1] ).s( "p", p ).s( "a", q );
  };
  return R.main( argc, argv );
}
