// Replays cases through the library and records one JSON line per case.
//
// A case is one line of JSON. The handler turns it into a JSON result; the
// recorded line is {"id":..., "out":<result>}. Handlers run in a child process, so
// that a crash or an endless loop in the library becomes a recorded event
// ({"id":..., "crash":<what>}) instead of the end of the run. The caller adds
// the case itself, which a library that writes out of bounds cannot touch.
#ifndef VERIF_HARNESS_HH
#define VERIF_HARNESS_HH

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh
{

struct J
{
  enum Type { Null, Bool, Int, Str, Arr, Obj };

  Type type = Null;
  bool b = false;
  long long i = 0;
  std::string s;
  std::vector<J> a;
  std::vector< std::pair<std::string, J> > o;

  J() {}
  J( bool v ) : type( Bool ), b( v ) {}
  J( int v ) : type( Int ), i( v ) {}
  J( long v ) : type( Int ), i( v ) {}
  J( long long v ) : type( Int ), i( v ) {}
  J( unsigned v ) : type( Int ), i( v ) {}
  J( unsigned short v ) : type( Int ), i( v ) {}
  J( unsigned long v ) : type( Int ), i( static_cast<long long>( v ) ) {}
  J( const char* v ) : type( Str ), s( v ) {}
  J( const std::string& v ) : type( Str ), s( v ) {}

  static J arr() { J j; j.type = Arr; return j; }
  static J obj() { J j; j.type = Obj; return j; }

  template <class T> static J seq( const T& container )
  {
    J j = arr();
    for( auto&& x : container )
      j.push( J( x ) );
    return j;
  }

  J& push( J v ) { type = Arr; a.push_back( std::move( v ) ); return *this; }

  J& set( const std::string& k, J v )
  {
    type = Obj;
    for( auto& p : o )
      if( p.first == k ) { p.second = std::move( v ); return *this; }
    o.emplace_back( k, std::move( v ) );
    return *this;
  }

  bool has( const std::string& k ) const
  {
    for( auto& p : o )
      if( p.first == k )
        return true;
    return false;
  }

  const J& operator[]( const std::string& k ) const
  {
    for( auto& p : o )
      if( p.first == k )
        return p.second;
    std::fprintf( stderr, "harness: missing key %s\n", k.c_str() );
    std::_Exit( 99 );
  }

  const J& operator[]( const char* k ) const { return (*this)[ std::string( k ) ]; }
  const J& operator[]( std::size_t k ) const { return a.at( k ); }
  const J& operator[]( int k ) const { return a.at( static_cast<std::size_t>( k ) ); }
  std::size_t size() const { return a.size(); }

  std::vector<long long> ints() const
  {
    std::vector<long long> r;
    for( auto& x : a )
      r.push_back( x.i );
    return r;
  }

  template <class T> std::vector<T> as() const
  {
    std::vector<T> r;
    for( auto& x : a )
      r.push_back( static_cast<T>( x.i ) );
    return r;
  }

  void dump( std::string& out ) const
  {
    switch( type )
    {
    case Null: out += "null"; break;
    case Bool: out += b ? "true" : "false"; break;
    case Int:  out += std::to_string( i ); break;
    case Str:
      out += '"';
      for( unsigned char c : s )
      {
        if( c == '"' || c == '\\' ) { out += '\\'; out += static_cast<char>( c ); }
        else if( c == '\n' ) out += "\\n";
        else if( c == '\t' ) out += "\\t";
        else if( c < 0x20 || c >= 0x7f ) { char buf[8]; std::snprintf( buf, sizeof buf, "\\u%04x", c ); out += buf; }
        else out += static_cast<char>( c );
      }
      out += '"';
      break;
    case Arr:
    {
      out += '[';
      bool first = true;
      for( auto& x : a ) { if( !first ) out += ','; first = false; x.dump( out ); }
      out += ']';
      break;
    }
    case Obj:
    {
      out += '{';
      bool first = true;
      for( auto& p : o )
      {
        if( !first ) out += ',';
        first = false;
        J( p.first ).dump( out );
        out += ':';
        p.second.dump( out );
      }
      out += '}';
      break;
    }
    }
  }
};

class Parser
{
public:
  explicit Parser( const std::string& t ) : _t( t ) {}

  J parse()
  {
    ws();
    char c = peek();
    if( c == '{' )
    {
      J j = J::obj(); ++_p; ws();
      if( peek() == '}' ) { ++_p; return j; }
      for(;;)
      {
        ws();
        std::string k = str();
        ws(); expect( ':' );
        j.set( k, parse() );
        ws();
        if( peek() == ',' ) { ++_p; continue; }
        expect( '}' );
        return j;
      }
    }
    if( c == '[' )
    {
      J j = J::arr(); ++_p; ws();
      if( peek() == ']' ) { ++_p; return j; }
      for(;;)
      {
        j.push( parse() );
        ws();
        if( peek() == ',' ) { ++_p; continue; }
        expect( ']' );
        return j;
      }
    }
    if( c == '"' ) return J( str() );
    if( c == 't' ) { _p += 4; return J( true ); }
    if( c == 'f' ) { _p += 5; return J( false ); }
    if( c == 'n' ) { _p += 4; return J(); }
    std::size_t e = _p;
    while( e < _t.size() && ( std::isdigit( static_cast<unsigned char>( _t[e] ) ) || _t[e] == '-' || _t[e] == '+' ) ) ++e;
    J j( std::stoll( _t.substr( _p, e - _p ) ) );
    _p = e;
    return j;
  }

private:
  char peek() { if( _p >= _t.size() ) fail(); return _t[_p]; }
  void expect( char c ) { if( peek() != c ) fail(); ++_p; }
  void ws() { while( _p < _t.size() && std::isspace( static_cast<unsigned char>( _t[_p] ) ) ) ++_p; }
  void fail() { std::fprintf( stderr, "harness: cannot parse case at %zu: %s\n", _p, _t.c_str() ); std::_Exit( 99 ); }

  std::string str()
  {
    expect( '"' );
    std::string r;
    while( peek() != '"' )
    {
      char c = _t[_p++];
      if( c == '\\' )
      {
        c = _t[_p++];
        if( c == 'n' ) r += '\n';
        else if( c == 't' ) r += '\t';
        else if( c == 'r' ) r += '\r';
        else if( c == 'u' ) { r += static_cast<char>( std::stoi( _t.substr( _p, 4 ), nullptr, 16 ) ); _p += 4; }
        else r += c;
      }
      else r += c;
    }
    ++_p;
    return r;
  }

  const std::string& _t;
  std::size_t _p = 0;
};

// Numbers are recorded as integers; `scale` makes dyadic and decimal fractions
// integral. What cannot be represented is mapped to reserved values, which no
// specification accepts as a finite number.
const long long PLUS_INF  =  2000000000LL;
const long long MINUS_INF = -2000000000LL;
const long long BAD       =  2000000001LL;

inline J num( double x, double scale = 1.0, double tolerance = 1e-6 )
{
  if( std::isnan( x ) )
    return J( BAD );
  if( std::isinf( x ) )
    return J( x > 0 ? PLUS_INF : MINUS_INF );
  if( x == std::numeric_limits<double>::max() || x == static_cast<double>( std::numeric_limits<float>::max() ) )
    return J( PLUS_INF );
  if( x == std::numeric_limits<double>::lowest() )
    return J( MINUS_INF );

  double y = x * scale;
  double r = std::round( y );

  if( std::fabs( y - r ) > tolerance * std::max( 1.0, std::fabs( y ) ) || std::fabs( r ) > 1.9e9 )
    return J( BAD );

  return J( static_cast<long long>( r ) );
}

// The same for numbers that are not representable exactly: the nearest multiple
// of 1/scale.
inline J near( double x, double scale )
{
  return std::isfinite( x ) ? num( std::round( x * scale ) ) : num( x );
}

// Real numbers for the integers of a case. Cases may select how integers are
// embedded into the numbers the library calculates with: as they are (0), tiny
// (1), close to one another in relation to their absolute value (2), huge (3),
// or with many digits (4). All embeddings are exact and preserve the order; only
// the second one does not preserve sums and zero.
struct Unit
{
  double factor = 1.0;
  double shift  = 0.0;
};

inline int& unitNumber()
{
  static int number = 0;
  return number;
}

template <class T> Unit unit()
{
  Unit u;
  switch( unitNumber() )
  {
  case 1:
    if( !std::numeric_limits<T>::is_integer ) u.factor = std::ldexp( 1.0, std::numeric_limits<T>::digits > 50 ? -40 : -20 );
    break;
  case 2:
    if( std::numeric_limits<T>::is_integer ) u.shift = 1000000000;
    else if( std::numeric_limits<T>::digits > 50 ) { u.factor = std::ldexp( 1.0, -20 ); u.shift = std::ldexp( 1.0, 20 ); }
    else u.factor = std::ldexp( 1.0, -10 );
    break;
  case 3:
    u.factor = std::ldexp( 1.0, std::numeric_limits<T>::is_integer ? 16 : std::numeric_limits<T>::digits > 50 ? 50 : 20 );
    break;
  case 4:
    if( std::numeric_limits<T>::digits > 50 && !std::numeric_limits<T>::is_integer ) u.factor = 1.0 + std::ldexp( 1.0, -30 );
    break;
  }
  return u;
}

template <class T> T enc( long long w, double scale = 1.0 )
{
  auto u = unit<T>();
  return static_cast<T>( double( w ) / scale * u.factor + u.shift );
}

template <class T> J dec( T x, double scale = 1.0 )
{
  double y = double( x );
  if( std::isnan( y ) || std::isinf( y ) || x == std::numeric_limits<T>::max() || x == std::numeric_limits<T>::lowest() )
    return num( y );

  auto u = unit<T>();
  y = ( y - u.shift ) / u.factor * scale;
  return y == std::round( y ) && std::fabs( y ) < 1.9e9 ? J( static_cast<long long>( y ) ) : J( BAD );
}

// Rounding errors that are tolerated: those of a few operations
template <class T> double digits()
{
  return std::numeric_limits<T>::digits > 50 ? 1e-11 : 1e-6;
}

// Differences, sums and other homogeneous quantities, which do not know about
// the shift.
template <class T> J decDifference( T x, double scale = 1.0, int degree = 1 )
{
  return num( double( x ) / std::pow( unit<T>().factor, degree ), scale, digits<T>() );
}

inline std::string exceptionName( const std::exception& e )
{
  if( dynamic_cast<const std::out_of_range*>( &e ) )     return "out_of_range";
  if( dynamic_cast<const std::invalid_argument*>( &e ) ) return "invalid_argument";
  if( dynamic_cast<const std::bad_alloc*>( &e ) )        return "bad_alloc";
  if( dynamic_cast<const std::logic_error*>( &e ) )      return "logic_error";
  if( dynamic_cast<const std::runtime_error*>( &e ) )    return "runtime_error";
  return "exception";
}

using Handler = std::function<J( const J& )>;

inline int run( int argc, char** argv, Handler handler )
{
  if( argc < 3 )
  {
    std::fprintf( stderr, "usage: %s cases.ndjson events.ndjson [cpu-seconds per case]\n", argv[0] );
    return 99;
  }

  int limit = argc > 3 ? std::atoi( argv[3] ) : 20;

  std::vector<std::string> lines;
  {
    std::ifstream in( argv[1] );
    std::string line;
    while( std::getline( in, line ) )
      if( !line.empty() )
        lines.push_back( line );
  }

  int fd = ::open( argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644 );
  if( fd < 0 )
    return 99;

  auto* next = static_cast<volatile std::size_t*>( ::mmap( nullptr, sizeof( std::size_t ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  *next = 0;

  auto emit = [fd] ( std::string text )
  {
    text += '\n';
    const char* p = text.data();
    std::size_t n = text.size();
    while( n )
    {
      ssize_t w = ::write( fd, p, n );
      if( w <= 0 ) std::_Exit( 99 );
      p += w; n -= static_cast<std::size_t>( w );
    }
  };

  int crashes = 0;
  int hangs   = 0;

  while( *next < lines.size() )
  {
    pid_t pid = ::fork();
    if( pid < 0 )
      return 99;

    if( pid == 0 )
    {
      int null = ::open( "/dev/null", O_WRONLY );
      if( null >= 0 ) { ::dup2( null, 1 ); if( !std::getenv( "VERIF_STDERR" ) ) ::dup2( null, 2 ); }

      struct rlimit core = { 0, 0 };
      ::setrlimit( RLIMIT_CORE, &core );
      struct rlimit mem = { rlim_t( 6 ) << 30, rlim_t( 6 ) << 30 };
      ::setrlimit( RLIMIT_AS, &mem );

      while( *next < lines.size() )
      {
        std::size_t k = *next;

        struct itimerval timer;
        std::memset( &timer, 0, sizeof timer );
        timer.it_value.tv_sec = limit;
        ::setitimer( ITIMER_PROF, &timer, nullptr );
        timer.it_value.tv_sec = 8 * limit;
        ::setitimer( ITIMER_REAL, &timer, nullptr );

        J c = Parser( lines[k] ).parse();
        J r = J::obj();
        r.set( "id", J( k + 1 ) );
        unitNumber() = c.type == J::Obj && c.has( "unit" ) ? int( c["unit"].i ) : 0;

        try
        {
          r.set( "out", handler( c ) );
        }
        catch( std::exception& e )
        {
          r.set( "crash", "uncaught " + exceptionName( e ) + ": " + e.what() );
        }
        catch( ... )
        {
          r.set( "crash", "uncaught exception" );
        }

        std::string text;
        r.dump( text );
        emit( text );
        *next = k + 1;
      }

      std::_Exit( 0 );
    }

    int status = 0;
    ::waitpid( pid, &status, 0 );

    if( WIFEXITED( status ) && WEXITSTATUS( status ) == 99 )
      return 99;

    if( *next < lines.size() )
    {
      std::size_t k = *next;
      std::string what = "ended early";

      if( WIFSIGNALED( status ) )
      {
        int s = WTERMSIG( status );
        bool hang = s == SIGPROF || s == SIGALRM;
        hangs += hang;
        what = hang ? "no answer within the time limit" : std::string( "signal " ) + std::to_string( s );
        if( s == SIGKILL || s == SIGTERM || s == SIGINT )
          return 98;
      }

      std::string text = "{\"id\":" + std::to_string( k + 1 ) + ",\"crash\":";
      J( what ).dump( text );
      text += "}";
      emit( text );
      *next = k + 1;

      // One run stays bounded even if every case crashes or never ends.
      if( ++crashes >= 25 || hangs >= 2 )
        break;
    }
  }

  ::close( fd );
  return 0;
}

} // namespace vh

#endif
