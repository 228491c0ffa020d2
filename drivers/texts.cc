// Values written as text and read back, texts written by others.
#include "common.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/TikZ.hh>

#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Vector.hh>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace vh;

const double S = 100;

std::string path( const char* suffix )
{
  const char* dir = std::getenv( "VERIF_SCRATCH" );
  return std::string( dir ? dir : "." ) + "/text" + suffix;
}

struct File
{
  std::string name;
  File( const char* suffix ) : name( path( suffix ) ) {}
  File( const char* suffix, const std::string& text ) : name( path( suffix ) ) { std::ofstream( name, std::ios::binary ) << text; }
  ~File() { std::remove( name.c_str() ); }
};

template <class T> T value( const J& x )
{
  return T( double( x.i ) / S );
}

template <class T> aleph::PersistenceDiagram<T> diagram( const J& pts )
{
  aleph::PersistenceDiagram<T> D;
  for( auto&& p : pts.a )
  {
    if( p[1].i == PLUS_INF )
      D.add( value<T>( p[0] ) );
    else
      D.add( value<T>( p[0] ), value<T>( p[1] ) );
  }
  return D;
}

template <class T> J points( const aleph::PersistenceDiagram<T>& D )
{
  J r = J::arr();
  for( auto&& p : D )
    r.push( J::arr().push( num( double( p.x() ), S ) ).push( p.isUnpaired() ? J( PLUS_INF ) : num( double( p.y() ), S ) ) );
  return r;
}

template <class T> J json( const J& c )
{
  std::ostringstream out;
  if( c["one"].b )
  {
    File f( ".json" );
    auto D = diagram<T>( c["Ds"][0]["pts"] );
    D.setDimension( std::size_t( c["Ds"][0]["dim"].i ) );
    aleph::io::writeJSON( f.name, D, c["name"].s );
    std::ifstream in( f.name );
    out << "{ \"diagrams\": [\n" << in.rdbuf() << "\n] }\n";
  }
  else
  {
    out << "{ \"diagrams\": [\n";
    bool first = true;
    for( auto&& d : c["Ds"].a )
    {
      if( !first )
        out << ",\n";
      first  = false;
      auto D = diagram<T>( d["pts"] );
      D.setDimension( std::size_t( d["dim"].i ) );
      std::map<std::string, std::string> kvs;
      if( c["kvs"].b )
        kvs["key"] = "value";
      aleph::io::writeJSON( out, D, c["name"].s, kvs );
    }
    out << "\n] }\n";
  }
  J Ds = J::arr();
  auto push = [&] ( const std::vector< aleph::PersistenceDiagram<T> >& read ) {
    for( auto&& D : read )
      Ds.push( J::obj().set( "dim", J( static_cast<long long>( D.dimension() ) ) ).set( "pts", points( D ) ) );
  };
  if( c["file"].b )
  {
    File f( ".json", out.str() );
    push( aleph::io::readJSON<T>( f.name ) );
  }
  else
  {
    std::istringstream in( out.str() );
    push( aleph::io::readJSON<T>( in ) );
  }
  return J::obj().set( "Ds", Ds );
}

template <class T> J diagrams( const J& c )
{
  std::ostringstream out;
  if( c["k"].s == "diagram" )
    out << diagram<T>( c["pts"] );
  else
    out << c["text"].s;
  File f( ".txt", out.str() );
  return J::obj().set( "pts", points( aleph::io::load<T>( f.name ) ) );
}

template <class T> J clouds( const J& c )
{
  using Cloud = aleph::containers::PointCloud<T>;
  Cloud P, Q;
  std::string text;
  if( c["k"].s == "cloud" )
  {
    P = Cloud( c["pts"].size(), std::size_t( c["d"].i ) );
    for( std::size_t i = 0; i < P.size(); i++ )
    {
      std::vector<T> x;
      for( auto&& v : c["pts"][i].a )
        x.push_back( value<T>( v ) );
      P.set( i, x.begin(), x.end() );
    }
    std::ostringstream out;
    out << P;
    text = out.str();
  }
  else
    text = c["text"].s;

  if( c["file"].b )
  {
    File f( ".txt", text );
    Q = aleph::containers::load<T>( f.name );
  }
  else
  {
    std::istringstream in( text );
    Q = aleph::containers::load<T>( in );
  }
  J pts = J::arr();
  for( std::size_t i = 0; i < Q.size(); i++ )
  {
    J p = J::arr();
    for( auto&& x : Q[i] )
      p.push( num( double( x ), S ) );
    pts.push( p );
  }
  return J::obj().set( "pts", pts ).set( "d", J( static_cast<long long>( Q.dimension() ) ) ).set( "equal", J( P == Q ) );
}

template <class D> aleph::topology::SimplicialComplex< aleph::topology::Simplex<D, unsigned> > complexOf( const J& c )
{
  using Simplex = aleph::topology::Simplex<D, unsigned>;
  std::vector<Simplex> K;
  for( auto&& v : c["G"]["V"].a )
    K.push_back( Simplex( unsigned( v.i ), D( 7 ) ) );
  for( auto&& e : c["G"]["E"].a )
    K.push_back( Simplex( { unsigned( e[0].i ), unsigned( e[1].i ) }, value<D>( e[2] ) ) );
  for( auto&& t : c["T"].a )
    K.push_back( Simplex( { unsigned( t[0].i ), unsigned( t[1].i ), unsigned( t[2].i ) }, D( 9 ) ) );
  if( c.has( "order" ) )
  {
    // Any further simplices, and any order
    for( auto&& t : c["Q"].a )
    {
      auto vs = t.as<unsigned>();
      K.push_back( Simplex( vs.begin(), vs.end(), D( 9 ) ) );
    }
    std::vector<Simplex> L;
    for( auto&& i : c["order"].a )
      L.push_back( K.at( std::size_t( i.i ) ) );
    K.swap( L );
  }
  return aleph::topology::SimplicialComplex<Simplex>( K.begin(), K.end() );
}

template <class D> J gml( const J& c )
{
  auto K = complexOf<D>( c );
  aleph::topology::io::GMLWriter writer;
  writer.writeSimplexDataForVertices( c["data"].b );
  if( c["labelled"].b )
  {
    std::vector<std::string> labels;
    for( auto&& l : c["labels"].a )
      labels.push_back( l.s );
    writer.setNodeLabels( labels.begin(), labels.end() );
  }
  decltype( K ) L;
  aleph::topology::io::GMLReader reader;
  if( c["file"].b )
  {
    File f( ".gml" );
    writer( f.name, K );
    reader( f.name, L );
  }
  else
  {
    std::ostringstream s;
    writer( s, K );
    File f( ".gml", s.str() );
    std::ifstream in( f.name );
    reader( in, L );
  }
  J V = J::arr(), E = J::arr(), labels = J::arr();
  for( auto&& s : L )
  {
    if( s.dimension() == 0 )
      V.push( J( static_cast<long long>( s[0] ) ) );
    else
    {
      auto u = std::min( s[0], s[1] ), v = std::max( s[0], s[1] );
      E.push( J::arr().push( J( static_cast<long long>( u ) ) ).push( J( static_cast<long long>( v ) ) ).push( num( double( s.data() ), S ) ) );
    }
  }
  auto read = reader.getNodeAttribute( "label" );
  for( auto&& v : c["G"]["V"].a )
  {
    auto it = read.find( std::to_string( v.i ) );
    labels.push( J( it == read.end() ? std::string() : it->second ) );
  }
  return J::obj().set( "G", J::obj().set( "V", V ).set( "E", E ) ).set( "labels", labels );
}

std::vector<double> numbersIn( const std::string& s )
{
  std::vector<double> r;
  const char* p = s.c_str();
  while( *p )
  {
    char* e  = nullptr;
    double x = std::strtod( p, &e );
    if( e != p )
    {
      r.push_back( x );
      p = e;
    }
    else
      ++p;
  }
  return r;
}

template <class C> J coordinates( const C& x, std::size_t n )
{
  J r = J::arr();
  for( std::size_t i = 0; i < n && i < x.size(); i++ )
    r.push( num( x[i], S ) );
  return r;
}

J drawing( const J& c )
{
  auto K = complexOf<double>( c );
  std::vector< std::vector<double> > P;
  for( auto&& p : c["P"].a )
  {
    P.push_back( {} );
    for( auto&& x : p.a )
      P.back().push_back( value<double>( x ) );
  }
  std::string text;
  bool picture = c["k"].s == "picture";
  {
    std::ostringstream out;
    if( picture )
    {
      aleph::topology::io::TikZ writer;
      writer.showTriangles( c["fill"].b );
      writer.showVertexLabels( c["labelled"].b );
      if( c["file"].b )
      {
        File f( ".tex" );
        writer( f.name, K, P );
        std::ifstream in( f.name );
        out << in.rdbuf();
      }
      else
        writer( out, K, P );
    }
    else
    {
      aleph::topology::io::LinesAndPoints writer;
      writer.addVertexLabels( c["labelled"].b );
      if( c["file"].b )
      {
        File f( ".dat" );
        writer( f.name, K, P );
        std::ifstream in( f.name );
        out << in.rdbuf();
      }
      else
        writer( out, K, P );
    }
    text = out.str();
  }
  J points = J::arr(), lines = J::arr(), triangles = J::arr(), labels = J::arr();
  std::istringstream in( text );
  std::string line;
  if( picture )
  {
    while( std::getline( in, line ) )
    {
      auto bracket = line.find( ']' );
      std::string rest = bracket == std::string::npos ? line : line.substr( bracket + 1 );
      for( auto& ch : rest )
      {
        if( ch == '-' && ( &ch == &rest[0] || *( &ch + 1 ) == '-' || *( &ch - 1 ) == '-' || *( &ch + 1 ) == ' ' ) )
          ch = ' ';
      }
      if( line.find( "\\coordinate" ) == 0 )
      {
        auto x = numbersIn( rest );
        if( x.empty() )
          continue;
        points.push( J::arr().push( num( x[0] ) ).push( coordinates( std::vector<double>( x.begin() + 1, x.end() ), x.size() ) ) );
      }
      else if( line.find( "\\draw" ) == 0 || line.find( "\\fill[" ) == 0 )
      {
        J vs = J::arr();
        for( auto&& x : numbersIn( rest ) )
          vs.push( num( x ) );
        ( line.find( "\\draw" ) == 0 ? lines : triangles ).push( vs );
      }
    }
    return J::obj().set( "points", points ).set( "lines", lines ).set( "triangles", triangles );
  }
  // Blocks are separated by two empty lines, segments by one.
  int block = 0, blank = 0;
  J segment = J::arr();
  while( std::getline( in, line ) )
  {
    if( line.empty() )
    {
      if( ++blank == 2 && block == 0 )
        block = 1;
      if( block == 1 && segment.size() )
      {
        lines.push( segment );
        segment = J::arr();
      }
      continue;
    }
    blank  = 0;
    auto x = numbersIn( line );
    auto p = coordinates( x, x.size() - ( block == 0 && c["labelled"].b ? 1 : 0 ) );
    if( block == 0 )
    {
      points.push( p );
      labels.push( c["labelled"].b ? num( x.back() ) : J( 0 ) );
    }
    else
      segment.push( p );
  }
  return J::obj().set( "points", points ).set( "lines", lines ).set( "labels", labels );
}

template <class R> J matrix( const J& c )
{
  using M = aleph::topology::BoundaryMatrix<R>;
  M m;
  if( c["file"].b )
  {
    File f( ".txt", c["text"].s );
    m = M::load( f.name );
  }
  else
  {
    std::istringstream in( c["text"].s );
    m = M::load( in );
  }
  J columns = J::arr();
  for( typename M::Index j = 0; j < m.getNumColumns(); j++ )
  {
    J rows = J::arr();
    for( auto&& i : m.getColumn( j ) )
      rows.push( J( static_cast<long long>( i ) ) );
    columns.push( J::obj().set( "dim", J( static_cast<long long>( m.getDimension( j ) ) ) ).set( "rows", rows ) );
  }
  return J::obj().set( "n", J( static_cast<long long>( m.getNumColumns() ) ) ).set( "columns", columns );
}

// Files that can neither be read nor written
J refusal( const J& c )
{
  auto name = path( "-missing/file" );
  auto what = c["what"].s;
  using Complex = aleph::topology::SimplicialComplex< aleph::topology::Simplex<double, unsigned> >;
  Complex K = { {0}, {1}, {0,1} }, L;
  std::vector< std::vector<double> > P = { {0,0}, {1,1} };
  bool refused = false;
  try
  {
    if( what == "json" ) aleph::io::writeJSON( name, aleph::PersistenceDiagram<double>() );
    else if( what == "gml" ) aleph::topology::io::GMLWriter()( name, K );
    else if( what == "picture" ) aleph::topology::io::TikZ()( name, K, P );
    else if( what == "drawing" ) aleph::topology::io::LinesAndPoints()( name, K, P );
    else if( what == "rjson" ) aleph::io::readJSON<double>( name );
    else if( what == "rdiagram" ) aleph::io::load<double>( name );
    else if( what == "rgml" ) aleph::topology::io::GMLReader()( name, L );
  }
  catch( std::runtime_error& )
  {
    refused = true;
  }
  return J::obj().set( "refused", J( refused ) );
}

template <class T> J dispatch( const J& c )
{
  auto k = c["k"].s;
  if( k == "json" )
    return json<T>( c );
  else if( k == "diagram" || k == "rdiagram" )
    return diagrams<T>( c );
  else if( k == "gml" )
    return gml<T>( c );
  return clouds<T>( c );
}

J one( const J& c )
{
  using namespace aleph::topology::representations;
  auto k = c["k"].s;
  auto t = c["t"].s;
  if( k == "drawing" || k == "picture" )
    return drawing( c );
  else if( k == "refusal" )
    return refusal( c );
  else if( k == "rmatrix" )
    return t == "d" ? matrix< Vector<unsigned> >( c ) : t == "f" ? matrix< Set<unsigned> >( c ) : matrix< List<unsigned> >( c );
  else if( k == "cloud" || k == "rcloud" || k == "gml" )
    return t == "d" ? dispatch<double>( c ) : dispatch<float>( c );
  return k == "gml" || t == "d" ? dispatch<double>( c ) : t == "f" ? dispatch<float>( c ) : dispatch<int>( c );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) { return one( c ); } );
}
