// Conformance harness for the command-line parser of the bundled kwsys (C33).
#include "hcommon.h"
#include <list>
#include <memory>
#include <vector>
#include <kwsys/CommandLineArguments.hxx>
using hc::args_t;
using hc::ev;
typedef kwsys::CommandLineArguments cla;

struct slot
{
  std::string kind;
  bool b = false;
  int i = 7;
  double d = 7.5;
  char* c = nullptr;
  std::string s = "before";
  std::vector< bool > vb;
  std::vector< int > vi;
  std::vector< double > vd;
  std::vector< char* > vc;
  std::vector< std::string > vs;
  ~slot()
  {
    delete[] c;
    for( char* p : vc ) { delete[] p; }
  }
};
static std::string num( double d )
{
  char t[64];
  snprintf( t, sizeof t, "%.15g", d );
  return t;
}
static std::vector< std::string > values( slot const& v )
{
  std::vector< std::string > o;
  if( v.kind == "bool" ) { o.push_back( v.b ? "1" : "0" ); }
  else if( v.kind == "int" ) { o.push_back( std::to_string( v.i ) ); }
  else if( v.kind == "double" ) { o.push_back( num( v.d ) ); }
  else if( v.kind == "cstr" ) { o.push_back( v.c ? v.c : "<null>" ); }
  else if( v.kind == "str" ) { o.push_back( v.s ); }
  for( bool x : v.vb ) { o.push_back( x ? "1" : "0" ); }
  for( int x : v.vi ) { o.push_back( std::to_string( x ) ); }
  for( double x : v.vd ) { o.push_back( num( x ) ); }
  for( char* x : v.vc ) { o.push_back( x ); }
  for( std::string const& x : v.vs ) { o.push_back( x ); }
  return o;
}
// what callbacks were called with
static std::vector< std::pair< std::string, std::string > > calls;
static bool data;
static int here;
static int called( char const* argument, char const* value, void* d )
{
  calls.emplace_back( argument, value ? value : "<null>" );
  data = data && d == &here;
  return !( value && strcmp( value, "no" ) == 0 ) && strcmp( argument, "--fail" ) != 0;
}
static int unknown_ok( char const* argument, void* d )
{
  calls.emplace_back( "?", argument );
  data = data && d == &here;
  return 1;
}
static int unknown_fail( char const* argument, void* d )
{
  unknown_ok( argument, d );
  return 0;
}
static std::string quoted( std::vector< std::string > const& v )
{
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "," : "" ) + hc::js( v[i] ); }
  return o + "]";
}

int main( int argc, char** argv )
{
  hc::runner R;
  std::unique_ptr< cla > p;
  std::list< slot > slots;
  // the names and help texts have to live as long as the parser, each in memory of its own size
  std::list< std::unique_ptr< char[] > > texts;
  auto keep = [&]( std::string const& t ) {
    std::unique_ptr< char[] > c( new char[t.size() + 1] );
    memcpy( c.get(), t.c_str(), t.size() + 1 );
    texts.push_back( std::move( c ) );
    return (char const*) texts.back().get();
  };
  R.on_reset = [&]() {
    p.reset();
    slots.clear();
    texts.clear();
    p.reset( new cla );
    p->SetClientData( &here );
  };
  auto view = [&]( ev& e ) {
    std::string o = "[";
    for( slot const& v : slots ) { o += ( o.size() > 1 ? "," : "" ) + quoted( values( v ) ); }
    e.raw( "vals", o + "]" ).i( "last", (int) p->GetLastArgument() );
    auto list = [&]( bool rest ) {
      int n = -1;
      char** a = nullptr;
      if( rest ) { p->GetRemainingArguments( &n, &a ); }
      else { p->GetUnusedArguments( &n, &a ); }
      std::vector< std::string > v( a, a + n );
      p->DeleteRemainingArguments( n, &a );
      return quoted( v );
    };
    e.raw( "rem", list( true ) ).raw( "unused", list( false ) ).s( "argv0", p->GetArgv0() );
  };
  // reg NAME FORM KIND HELP
  R.ops["reg"] = [&]( args_t const& a, ev& e ) {
    cla::ArgumentTypeEnum const f = a[2] == "none" ? cla::NO_ARGUMENT : a[2] == "concat" ? cla::CONCAT_ARGUMENT : a[2] == "space" ? cla::SPACE_ARGUMENT
      : a[2] == "equal" ? cla::EQUAL_ARGUMENT : cla::MULTI_ARGUMENT;
    slots.emplace_back();
    slot& v = slots.back();
    v.kind = a[3];
    char const* const n = keep( a[1] );
    char const* const h = keep( a.size() > 4 ? a[4] : "" );
    bool const plain = f == cla::NO_ARGUMENT && slots.size() % 2;
    if( v.kind == "call" ) { p->AddCallback( n, f, called, &here, h ); }
    else if( v.kind == "bool" ) { plain ? p->AddBooleanArgument( n, &v.b, h ) : p->AddArgument( n, f, &v.b, h ); }
    else if( v.kind == "int" ) { plain ? p->AddBooleanArgument( n, &v.i, h ) : p->AddArgument( n, f, &v.i, h ); }
    else if( v.kind == "double" ) { plain ? p->AddBooleanArgument( n, &v.d, h ) : p->AddArgument( n, f, &v.d, h ); }
    else if( v.kind == "cstr" ) { plain ? p->AddBooleanArgument( n, &v.c, h ) : p->AddArgument( n, f, &v.c, h ); }
    else if( v.kind == "str" ) { plain ? p->AddBooleanArgument( n, &v.s, h ) : p->AddArgument( n, f, &v.s, h ); }
    else if( v.kind == "vbool" ) { p->AddArgument( n, f, &v.vb, h ); }
    else if( v.kind == "vint" ) { p->AddArgument( n, f, &v.vi, h ); }
    else if( v.kind == "vdouble" ) { p->AddArgument( n, f, &v.vd, h ); }
    else if( v.kind == "vcstr" ) { p->AddArgument( n, f, &v.vc, h ); }
    else { p->AddArgument( n, f, &v.vs, h ); }
    e.s( "name", a[1] ).s( "form", a[2] ).s( "kind", a[3] ).s( "help", h );
  };
  // init PROGRAM ARGUMENT...  (no program: an empty vector, as programs may be started with)
  R.ops["init"] = [&]( args_t const& a, ev& e ) {
    size_t const n = a.size() - 1;
    std::vector< std::unique_ptr< char[] > > own;
    std::unique_ptr< char*[] > v( new char*[n + 1] );
    for( size_t i = 0; i < n; ++i )
    {
      own.emplace_back( new char[a[i + 1].size() + 1] );
      memcpy( own.back().get(), a[i + 1].c_str(), a[i + 1].size() + 1 );
      v[i] = own.back().get();
    }
    v[n] = nullptr;
    if( n % 2 ) { p->Initialize( (int) n, v.get() ); }
    else { p->Initialize( (int) n, (char const* const*) v.get() ); }
    e.s( "argv0", n ? a[1] : "" ).raw( "a", quoted( std::vector< std::string >( a.begin() + ( n ? 2 : 1 ), a.end() ) ) );
  };
  R.ops["add"] = [&]( args_t const& a, ev& e ) {
    std::string const t = a.size() > 1 ? a[1] : "";
    p->ProcessArgument( t.c_str() );
    e.s( "a", t );
  };
  R.ops["unk"] = [&]( args_t const& a, ev& e ) {
    p->SetUnknownArgumentCallback( a[1] == "ok" ? unknown_ok : a[1] == "fail" ? unknown_fail : nullptr );
    e.s( "how", a[1] );
  };
  R.ops["store"] = [&]( args_t const&, ev& ) { p->StoreUnusedArguments( true ); };
  R.ops["parse"] = [&]( args_t const&, ev& e ) {
    calls.clear();
    data = true;
    e.t( "ok", p->Parse() != 0 );
    std::string o = "[";
    for( auto const& c : calls ) { o += ( o.size() > 1 ? ",[" : "[" ) + hc::js( c.first ) + "," + hc::js( c.second ) + "]"; }
    e.raw( "calls", o + "]" ).t( "data", data );
    view( e );
  };
  R.ops["view"] = [&]( args_t const&, ev& e ) { view( e ); };
  R.ops["width"] = [&]( args_t const& a, ev& e ) {
    p->SetLineLength( (unsigned) atoi( a[1].c_str() ) );
    e.i( "n", atoi( a[1].c_str() ) ).i( "now", (int) p->GetLineLength() );
  };
  R.ops["help"] = [&]( args_t const&, ev& e ) {
    std::string const h = p->GetHelp();
    std::vector< std::string > words;
    size_t widest = 0;
    std::string line, word;
    std::istringstream lines( h );
    while( std::getline( lines, line ) )
    {
      size_t const end = line.find_last_not_of( ' ' );
      widest = std::max( widest, end == std::string::npos ? 0 : end + 1 );
      std::istringstream in( line );
      while( in >> word ) { words.push_back( word ); }
    }
    e.raw( "words", quoted( words ) ).i( "widest", (int) widest );
  };
  R.ops["helpof"] = [&]( args_t const& a, ev& e ) {
    char const* const h = p->GetHelp( a[1].c_str() );
    e.s( "name", a[1] ).s( "r", h ? h : "<null>" );
  };
  return R.main( argc, argv );
}
