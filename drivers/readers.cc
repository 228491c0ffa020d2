// Readers for all file formats.
#include "common.hh"

#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>
#include <aleph/topology/io/VTK.hh>

#include <aleph/topology/representations/Vector.hh>

#include <cstdio>
#include <fstream>

using namespace aleph::topology::io;
using namespace vh;

using Index = unsigned;

const double S       = 1000;
const long NOT_A_NUMBER = 1999999999;

// Deviation from a multiple of 1/S: sums of single or double precision numbers
double tolerance = 0.02;

J value( double x )
{
  if( std::isnan( x ) )
    return J( NOT_A_NUMBER );

  double y = std::round( x * S );
  if( std::isinf( x ) || std::fabs( x * S - y ) < tolerance * std::max( 1.0, std::fabs( x ) ) )
    return num( std::isinf( x ) ? x : y );
  return J( BAD );
}

J codes( const std::string& s )
{
  J r = J::arr();
  for( unsigned char c : s )
    r.push( J( int( c ) ) );
  return r;
}

std::string text( const J& x )
{
  std::string s;
  for( auto&& c : x.a )
    s.push_back( static_cast<char>( c.i ) );
  return s;
}

J pair( J a, J b ) { return J::arr().push( a ).push( b ); }

template <class Complex> J simplices( const Complex& K )
{
  J r = J::arr();
  for( auto&& s : K )
    r.push( pair( vertices( s ), value( double( s.data() ) ) ) );
  return r;
}

template <class Complex> J complexes( const std::vector<Complex>& Ks )
{
  J r = J::arr();
  for( auto&& K : Ks )
    r.push( simplices( K ) );
  return r;
}

J texts( const std::vector<std::string>& v )
{
  J r = J::arr();
  for( auto&& s : v )
    r.push( codes( s ) );
  return r;
}

// Files are written into the directory of this run and removed afterwards.
struct Files
{
  std::vector<std::string> names;
  std::string main;

  Files( const J& d )
  {
    const char* dir = std::getenv( "VERIF_SCRATCH" );
    std::string base = std::string( dir ? dir : "." ) + "/input";
    for( auto&& f : d["files"].a )
    {
      names.push_back( base + f[0].s );
      std::ofstream out( names.back(), std::ios::binary );
      out << f[1].s;
    }
    if( d.has( "hdf5" ) )
    {
      names.push_back( base + ".h5" );
      write( names.back(), d );
    }
    main = names.front();
    if( d.has( "missing" ) )
      for( auto&& f : names )
        std::remove( f.c_str() );
  }

  ~Files()
  {
    for( auto&& f : names )
      std::remove( f.c_str() );
  }

  template <class T> void write( H5::Group& group, const std::string& name, const J& rows, const H5::PredType& type )
  {
    hsize_t dims[2] = { rows.size(), rows[0].size() };
    std::vector<T> data;
    for( auto&& r : rows.a )
      for( auto&& x : r.a )
        data.push_back( static_cast<T>( double( x.i ) / S ) );
    H5::DataSpace space( 2, dims );
    auto set = group.createDataSet( name, type, space );
    set.write( data.data(), type );
  }

  void write( const std::string& file, const J& d )
  {
    H5::H5File f( file, H5F_ACC_TRUNC );
    auto group = d["group"].s == "/" ? f.openGroup( "/" ) : f.createGroup( d["group"].s );
    if( d["type"].s == "float" )
      write<float>( group, d["set"].s, d["rows"], H5::PredType::NATIVE_FLOAT );
    else
      write<double>( group, d["set"].s, d["rows"], H5::PredType::NATIVE_DOUBLE );
  }
};

template <class D> std::function<D( D, D )> functor( const J& d )
{
  auto f = d["f"].s;
  if( f == "min" )
    return [] ( D a, D b ) { return std::min( a, b ); };
  else if( f == "sum" )
    return [] ( D a, D b ) { return D( a + b ); };
  return [] ( D a, D b ) { return std::max( a, b ); };
}

// Calls the variant without a functor for the maximum every other time.
template <class D, class Reader, class Complex> void readWith( Reader& reader, const std::string& file, Complex& K, const J& d )
{
  if( d["f"].s == "max" && d["deflt"].b )
    reader( file, K );
  else
    reader( file, K, functor<D>( d ) );
}

template <class V, class D> struct Session
{
  using Simplex = aleph::topology::Simplex<D, V>;
  using Complex = aleph::topology::SimplicialComplex<Simplex>;

  EdgeListReader edges;
  AdjacencyMatrixReader adjacency;
  BipartiteAdjacencyMatrixReader bipartite;
  MatrixReader matrix;
  GMLReader gml;
  GraphMLReader graphml;
  PajekReader pajek;
  LexicographicTriangulationReader lex;
  PLYReader ply;
  VTKStructuredGridReader vtk;
  FlexSpectrumReader spectrum;
  SparseAdjacencyMatrixReader sparse;
  HDF5SimpleDataSpaceReader hdf5;
  SimplicialComplexReader generic;

  Complex K;
  std::vector<Complex> Ks;

  J read( const J& d )
  {
    Files files( d );
    J r = J::obj();
    auto fmt = d["fmt"].s;
    tolerance = sizeof( D ) < sizeof( double ) || ( d.has( "type" ) && d["type"].s == "float" ) ? 0.02 : 1e-8;

    if( fmt == "edges" )
    {
      edges.setReadWeights( d["weights"].b );
      edges.setTrimLines( d["trim"].b );
      edges.setSeparator( d["sep"].s );
      edges( files.main, K );
    }
    else if( fmt == "adjacency" )
    {
      using W = AdjacencyMatrixReader::VertexWeightAssignmentStrategy;
      auto vw = d["vw"].s;
      adjacency.setIgnoreNaNs( d["nonan"].b );
      adjacency.setIgnoreZeroWeights( d["nozero"].b );
      adjacency.setVertexWeightAssignmentStrategy( vw == "max" ? W::AssignGlobalMaximum : vw == "min" ? W::AssignGlobalMinimum : W::AssignZero );
      auto f = d["f"].s;
      if( f == "id" )
        adjacency( files.main, K );
      else if( f == "flip" )
        adjacency( files.main, K, [] ( D mx, D, D x ) { return D( mx - x ); } );
      else
        adjacency( files.main, K, [] ( D mx, D mn, D x ) { return D( mx - mn + x ); } );
      r.set( "n", J( adjacency.dimension() ) );
    }
    else if( fmt == "bipartite" )
    {
      bipartite.setAssignMinimumVertexWeight( d["vw"].s == "min" );
      bipartite.setAssignMinimumAbsoluteVertexWeight( d["vw"].s == "abs" );
      bipartite( files.main, K );
      r.set( "h", J( bipartite.height() ) );
      r.set( "w", J( bipartite.width() ) );
    }
    else if( fmt == "matrix" )
    {
      matrix.addTriangles( d["tri"].b );
      readWith<D>( matrix, files.main, K, d );
      r.set( "h", J( matrix.height() ) );
      r.set( "w", J( matrix.width() ) );
    }
    else if( fmt == "gml" )
    {
      readWith<D>( gml, files.main, K, d );
      J labels = J::arr(), index = J::arr(), weights = J::arr();
      for( auto&& p : gml.getNodeAttribute( "label" ) )
        labels.push( pair( codes( p.first ), codes( p.second ) ) );
      for( auto&& p : gml.id_to_index<V>() )
        index.push( pair( codes( p.first ), J( static_cast<long long>( p.second ) ) ) );
      for( auto&& e : d["edges"].a )
      {
        auto w = gml.getEdgeAttribute( text( e["s"] ), text( e["t"] ), "weight" );
        weights.push( w.empty() ? J( NOT_A_NUMBER ) : num( std::strtod( w.c_str(), nullptr ), S ) );
      }
      r.set( "labels", labels ).set( "index", index ).set( "edgew", weights );
    }
    else if( fmt == "graphml" )
    {
      graphml.setReadNodeWeights( d["nodew"].b );
      graphml.setReadEdgeWeights( d["edgew"].b );
      graphml.setNodeWeightAttribute( d["nodea"].s );
      graphml.setEdgeWeightAttribute( d["edgea"].s );
      readWith<D>( graphml, files.main, K, d );
      J index = J::arr();
      for( auto&& p : graphml.id_to_index<V>() )
        index.push( pair( codes( p.first ), J( static_cast<long long>( p.second ) ) ) );
      r.set( "index", index );
    }
    else if( fmt == "pajek" )
    {
      pajek( files.main, K );
      J labels = J::arr();
      for( auto&& p : pajek.getLabelMap() )
        labels.push( pair( codes( p.first ), codes( p.second ) ) );
      r.set( "labels", labels );
    }
    else if( fmt == "lex" )
    {
      lex( files.main, Ks );
      r.set( "Ks", complexes( Ks ) );
      return r;
    }
    else if( fmt == "function" )
    {
      // Filtered boundary matrix
      aleph::topology::BoundaryMatrix< aleph::topology::representations::Vector<Index> > M;
      std::vector<D> values;
      loadFunction( files.main, M, values );

      J columns = J::arr(), weights = J::arr();
      for( Index j = 0; j < M.getNumColumns(); j++ )
      {
        J column = J::arr();
        for( auto&& i : M.getColumn( j ) )
          column.push( J( i ) );
        columns.push( column );
      }
      for( auto&& x : values )
        weights.push( value( x ) );
      return r.set( "cols", columns ).set( "values", weights );
    }
    else if( fmt == "functions" && d["iter"].b )
    {
      Ks.clear();
      for( auto&& row : d["rows"].a )
      {
        std::vector<D> values;
        for( auto&& x : row.a )
          values.push_back( D( double( x.i ) / S ) );
        Ks.push_back( loadFunction<Complex>( values.begin(), values.end(), functor<D>( d ) ) );
      }
      return r.set( "Ks", complexes( Ks ) );
    }
    else if( fmt == "functions" )
    {
      if( d["f"].s == "max" && d["deflt"].b )
        Ks = loadFunctions<Complex>( files.main );
      else
        Ks = loadFunctions<Complex>( files.main, functor<D>( d ) );
      r.set( "Ks", complexes( Ks ) );
      return r;
    }
    else if( fmt == "ply" )
    {
      ply.setDataProperty( d["prop"].s );
      ply( files.main, K );
    }
    else if( fmt == "vtk" )
    {
      readWith<D>( vtk, files.main, K, d );
      r.set( "name", J( vtk.scalarsName() ) ).set( "type", J( vtk.scalarsType() ) );
    }
    else if( fmt == "spectrum" )
    {
      spectrum.normalize( d["normalize"].b );
      spectrum( files.main, K );
      J values = J::arr(), intensities = J::arr();
      for( auto&& p : spectrum.getIndexToValueMap() )
        values.push( pair( J( p.first ), value( p.second ) ) );
      for( auto&& p : spectrum.getIndexToIntensityMap() )
        intensities.push( pair( J( p.first ), num( p.second, S ) ) );
      r.set( "values", values ).set( "intensities", intensities );
    }
    else if( fmt == "sparse" )
    {
      auto none = std::numeric_limits<std::size_t>::max();
      sparse.setReadGraphLabels( d["rgl"].b );
      sparse.setReadNodeLabels( d["rnl"].b );
      sparse.setReadNodeAttributes( d["na"].i > 0 );
      sparse.setReadEdgeAttributes( d["ea"].i > 0 );
      sparse.setNodeAttributeIndex( d["na"].i > 0 ? std::size_t( d["na"].i - 1 ) : none );
      sparse.setEdgeAttributeIndex( d["ea"].i > 0 ? std::size_t( d["ea"].i - 1 ) : none );
      sparse( files.main, Ks );
      std::vector<std::string> g, n;
      sparse.graphLabels( std::back_inserter( g ) );
      sparse.nodeLabels( std::back_inserter( n ) );
      r.set( "Ks", complexes( Ks ) ).set( "glabels", texts( g ) ).set( "nlabels", texts( n ) );
      return r;
    }
    else if( fmt == "hdf5" )
    {
      hdf5.setGroupName( d["group"].s );
      hdf5.setDataSetName( d["set"].s );
      readWith<D>( hdf5, files.main, K, d );
    }
    else if( fmt == "generic" )
    {
      if( d.has( "prop" ) )
        generic.setDataAttribute( d["prop"].s );
      readWith<D>( generic, files.main, K, d );
      r.set( "labels", texts( generic.labels() ) );
    }

    r.set( "K", simplices( K ) );
    return r;
  }

  J run( const J& c )
  {
    J out = J::arr();
    for( auto&& d : c["ops"].a )
    {
      try
      {
        out.push( read( d ) );
      }
      catch( std::exception& e )
      {
        out.push( J::obj().set( "error", J( e.what() ) ) );
      }
      catch( H5::Exception& e )
      {
        out.push( J::obj().set( "error", J( e.getDetailMsg() ) ) );
      }
    }
    return out;
  }
};

// Matrices with more cells than the vertex type can count
J smallVertices( const J& c )
{
  using Complex = aleph::topology::SimplicialComplex< aleph::topology::Simplex<double, unsigned char> >;
  J out = J::arr();
  for( auto&& d : c["ops"].a )
  {
    Files files( d );
    Complex K;
    J r = J::obj();
    if( d["fmt"].s == "adjacency" )
    {
      AdjacencyMatrixReader reader;
      reader( files.main, K );
      r.set( "n", J( reader.dimension() ) );
    }
    else
    {
      BipartiteAdjacencyMatrixReader reader;
      reader( files.main, K );
      r.set( "h", J( reader.height() ) ).set( "w", J( reader.width() ) );
    }
    out.push( r.set( "K", simplices( K ) ) );
  }
  return out;
}

int main( int argc, char** argv )
{
  return run( argc, argv, [] ( const J& c )
  {
    auto t = c["t"].s;
    if( t == "uf" )
      return Session<unsigned, float>().run( c );
    else if( t == "sd" )
      return Session<unsigned short, double>().run( c );
    else if( t == "cd" )
      return smallVertices( c );
    return Session<unsigned, double>().run( c );
  } );
}
