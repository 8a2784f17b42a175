// Type-erased access to generated archives, shared by the sequential driver and the thread simulator.
#pragma once

#include <flatdata/flatdata.h>

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace drv
{
extern uint32_t crc_update( uint32_t crc, const void* data, size_t n );

using Row = std::vector< uint64_t >;

struct Crc
{
    uint32_t v = 0;
    void add( const void* p, size_t n ) { v = crc_update( v, p, n ); }
    void u64( uint64_t x )
    {
        unsigned char b[ 8 ];
        for ( int i = 0; i < 8; i++ ) b[ i ] = static_cast< unsigned char >( x >> ( 8 * i ) );
        add( b, 8 );
    }
    void row( const uint64_t* r, int n )
    {
        for ( int i = 0; i < n; i++ ) u64( r[ i ] );
    }
};

/// per struct operations, specialised by the generated glue
template < typename T >
struct Ops;

/// a value to write: rows of a vector/instance, raw bytes, or buckets of (type, row)
struct Value
{
    std::vector< Row > rows;
    std::string raw;
    std::vector< std::vector< std::pair< int, Row > > > buckets;
};

constexpr int MAXF = 40;

inline void
print_row( std::ostream& o, const uint64_t* r, int n )
{
    o << " ";
    for ( int i = 0; i < n; i++ ) o << ( i ? "," : "" ) << r[ i ];
}

/// which elements dumps read: those i with i % stride == at
struct Part
{
    size_t stride = 1, at = 0;
};
inline thread_local Part part;

template < typename T >
void
dump_view( std::ostream& o, const flatdata::ArrayView< T >& v )
{
    if ( !v )
    {
        o << "invalid";
        return;
    }
    Crc c;
    uint64_t out[ MAXF ];
    size_t n = v.size( ), i = 0;
    if ( part.stride > 1 )
    {
        for ( i = part.at; i < n; i += part.stride )
        {
            int k = Ops< T >::get( v[ i ], out );
            c.row( out, k );
        }
        o << "vec " << n << " " << c.v;
        return;
    }
    bool same = true;
    std::ostringstream rows;
    for ( auto it = v.begin( ); it != v.end( ); ++it, ++i )
    {
        int k = Ops< T >::get( *it, out );
        c.row( out, k );
        if ( n <= 3 ) print_row( rows, out, k );
        if ( n <= 4096 || i % 97 == 0 )
        {
            uint64_t out2[ MAXF ];
            int k2 = Ops< T >::get( v[ i ], out2 );
            if ( k2 != k || std::memcmp( out, out2, k * sizeof( uint64_t ) ) ) same = false;
        }
    }
    if ( i != n ) same = false;
    o << "vec " << n << " " << c.v << rows.str( );
    if ( !same ) o << " INCONSISTENT";
}

template < typename T >
void
dump_instance( std::ostream& o, const T& x )
{
    if ( !x )
    {
        o << "invalid";
        return;
    }
    if ( part.at != 0 )
    {
        o << "skipped";
        return;
    }
    uint64_t out[ MAXF ];
    int k = Ops< T >::get( x, out );
    o << "inst";
    print_row( o, out, k );
}

inline void
dump_raw( std::ostream& o, const flatdata::MemoryDescriptor& m )
{
    if ( !m )
    {
        o << "invalid";
        return;
    }
    Crc c;
    if ( part.stride == 1 )
        c.add( m.data( ), m.size_in_bytes( ) );
    for ( size_t i = part.at; part.stride > 1 && i < m.size_in_bytes( ); i += part.stride ) c.add( m.data( ) + i, 1 );
    o << "raw " << m.size_in_bytes( ) << " " << c.v;
}

template < typename T, typename... Args >
struct IndexOf;
template < typename T, typename... Rest >
struct IndexOf< T, T, Rest... >
{
    static constexpr int value = 0;
};
template < typename T, typename U, typename... Rest >
struct IndexOf< T, U, Rest... >
{
    static constexpr int value = 1 + IndexOf< T, Rest... >::value;
};

template < typename... Args >
struct Visitor
{
    Crc* c;
    std::vector< uint32_t >* per_type;
    template < typename T, int I = IndexOf< T, Args... >::value >
    void
    operator( )( T x ) const
    {
        uint64_t out[ MAXF ];
        int k = Ops< T >::get( x, out );
        c->u64( I );
        c->row( out, k );
        ( *per_type )[ I ]++;
    }
};

template < typename View, typename T >
void
check_iter( const View& v, size_t i, uint32_t expect, bool& same )
{
    uint32_t n = 0;
    for ( auto it = v.template iterator< T >( i ); it.valid( ); ++it )
    {
        uint64_t out[ MAXF ];
        Ops< T >::get( *it, out );
        if ( ++n > expect ) break;
    }
    if ( n != expect ) same = false;
}

template < typename IndexType, typename... Args >
void
dump_multi( std::ostream& o, const flatdata::MultiArrayView< IndexType, Args... >& v )
{
    if ( !v )
    {
        o << "invalid";
        return;
    }
    Crc c;
    bool same = true;
    size_t n = v.size( );
    for ( size_t i = part.at; i < n; i += part.stride )
    {
        Crc b;
        std::vector< uint32_t > per_type( sizeof...( Args ) );
        v.for_each( i, Visitor< Args... >{ &b, &per_type } );
        uint64_t count = 0;
        for ( auto x : per_type ) count += x;
        c.u64( count );
        c.u64( b.v );
        if ( part.stride == 1 && ( n <= 4096 || i % 97 == 0 ) )
        {
            int k = 0;
            int dummy[] = { ( check_iter< flatdata::MultiArrayView< IndexType, Args... >, Args >( v, i, per_type[ k++ ], same ), 0 )... };
            (void)dummy;
        }
    }
    o << "mv " << n << " " << c.v;
    if ( !same ) o << " INCONSISTENT";
}

struct Stream
{
    virtual ~Stream( ) = default;
    virtual unsigned char* grow( ) = 0;                        // vector: new element
    virtual void bucket( ) = 0;                                // multivector: new bucket
    virtual unsigned char* add( int type ) = 0;                // multivector: new element in the bucket
    virtual void set( unsigned char* p, int type, const uint64_t* v ) = 0;
    virtual void setf( unsigned char* p, int type, int field, uint64_t v, int mode ) = 0;
    virtual int get( unsigned char* p, int type, uint64_t* out ) = 0;
    virtual void close( ) = 0;                                  // keeps the returned view
    virtual void dump( std::ostream& o ) = 0;
    virtual size_t size( ) = 0;
};

template < typename T >
struct VectorStream : Stream
{
    flatdata::ExternalVector< T > v;
    explicit VectorStream( flatdata::ExternalVector< T > x ) : v( std::move( x ) ) {}
    unsigned char* grow( ) override { return v.grow( ).data( ); }
    void bucket( ) override {}
    unsigned char* add( int ) override { return nullptr; }
    void set( unsigned char* p, int, const uint64_t* r ) override { Ops< T >::set( typename T::MutatorType{ p }, r ); }
    void setf( unsigned char* p, int, int f, uint64_t x, int mode ) override { Ops< T >::setf( typename T::MutatorType{ p }, f, x, mode ); }
    int get( unsigned char* p, int, uint64_t* out ) override { return Ops< T >::getm( typename T::MutatorType{ p }, out ); }
    flatdata::ArrayView< T > view;
    void close( ) override { view = v.close( ); }
    void dump( std::ostream& o ) override { dump_view( o, view ); }
    size_t size( ) override { return v.size( ); }
};

template < typename IndexType, typename... Args >
struct MultiStream : Stream
{
    using MV = flatdata::MultiVector< IndexType, Args... >;
    MV v;
    boost::optional< typename MV::ListBuilder > list;
    size_t n = 0;
    explicit MultiStream( MV x ) : v( std::move( x ) ) {}
    unsigned char* grow( ) override { return nullptr; }
    void bucket( ) override
    {
        list = v.grow( );
        n++;
    }
    template < typename T >
    static unsigned char* add_one( MultiStream* s )
    {
        return s->list->template add< T >( ).data( );
    }
    template < typename T >
    static void set_one( unsigned char* p, const uint64_t* r ) { Ops< T >::set( typename T::MutatorType{ p }, r ); }
    template < typename T >
    static void setf_one( unsigned char* p, int f, uint64_t x, int m ) { Ops< T >::setf( typename T::MutatorType{ p }, f, x, m ); }
    template < typename T >
    static int get_one( unsigned char* p, uint64_t* o ) { return Ops< T >::getm( typename T::MutatorType{ p }, o ); }
    unsigned char* add( int type ) override
    {
        static constexpr unsigned char* ( *f[] )( MultiStream* ) = { &add_one< Args >... };
        return list ? f[ type ]( this ) : nullptr;
    }
    void set( unsigned char* p, int type, const uint64_t* r ) override
    {
        static constexpr void ( *f[] )( unsigned char*, const uint64_t* ) = { &set_one< Args >... };
        f[ type ]( p, r );
    }
    void setf( unsigned char* p, int type, int fi, uint64_t x, int mode ) override
    {
        static constexpr void ( *f[] )( unsigned char*, int, uint64_t, int ) = { &setf_one< Args >... };
        f[ type ]( p, fi, x, mode );
    }
    int get( unsigned char* p, int type, uint64_t* o ) override
    {
        static constexpr int ( *f[] )( unsigned char*, uint64_t* ) = { &get_one< Args >... };
        return f[ type ]( p, o );
    }
    typename MV::View view;
    void close( ) override { view = v.close( ); }
    void dump( std::ostream& o ) override { dump_multi( o, view ); }
    size_t size( ) override { return n; }
};

template < typename T >
std::unique_ptr< Stream >
make_stream( flatdata::ExternalVector< T > v )
{
    return std::unique_ptr< Stream >( new VectorStream< T >( std::move( v ) ) );
}
template < typename I, typename... A >
std::unique_ptr< Stream >
make_stream( flatdata::MultiVector< I, A... > v )
{
    return std::unique_ptr< Stream >( new MultiStream< I, A... >( std::move( v ) ) );
}

/// what a set call takes, prepared outside of the measured call
struct Prepared
{
    virtual ~Prepared( ) = default;
    virtual unsigned char* grow( ) { return nullptr; }
    virtual unsigned char* at( size_t, int ) { return nullptr; }
    virtual void resize( size_t ) {}
    virtual void reserve( size_t ) {}
    virtual void pop( ) {}
    virtual size_t size( ) { return 0; }
    virtual void setf( unsigned char*, int, uint64_t, int ) {}
    virtual int get( unsigned char*, uint64_t* ) { return 0; }
    virtual void set( unsigned char*, const uint64_t* ) {}
    virtual void dump( std::ostream& ) {}
    virtual std::unique_ptr< Prepared > clone( ) { return nullptr; }
};
template < typename T >
struct PreparedVector : Prepared
{
    flatdata::Vector< T > v;
    unsigned char* grow( ) override { return v.grow( ).data( ); }
    unsigned char* at( size_t i, int how ) override
    {
        if ( how == 1 ) return v.front( ).data( );
        if ( how == 2 ) return v.back( ).data( );
        return v[ i ].data( );
    }
    void resize( size_t n ) override { v.resize( n ); }
    void reserve( size_t n ) override { v.reserve( n ); }
    void pop( ) override { v.pop_back( ); }
    size_t size( ) override { return v.size( ); }
    void setf( unsigned char* p, int f, uint64_t x, int m ) override { Ops< T >::setf( typename T::MutatorType{ p }, f, x, m ); }
    int get( unsigned char* p, uint64_t* o ) override { return Ops< T >::getm( typename T::MutatorType{ p }, o ); }
    void set( unsigned char* p, const uint64_t* r ) override { Ops< T >::set( typename T::MutatorType{ p }, r ); }
    void dump( std::ostream& o ) override { dump_view( o, flatdata::ArrayView< typename T::AccessorType >( v ) ); }
    std::unique_ptr< Prepared > clone( ) override { return std::unique_ptr< Prepared >( new PreparedVector( *this ) ); }
};
template < typename T >
struct PreparedStruct : Prepared
{
    flatdata::Struct< T > v;
    unsigned char* at( size_t, int ) override { return ( *v ).data( ); }
    size_t size( ) override { return 1; }
    void setf( unsigned char* p, int f, uint64_t x, int m ) override { Ops< T >::setf( typename T::MutatorType{ p }, f, x, m ); }
    int get( unsigned char* p, uint64_t* o ) override { return Ops< T >::getm( typename T::MutatorType{ p }, o ); }
    void set( unsigned char* p, const uint64_t* r ) override { Ops< T >::set( typename T::MutatorType{ p }, r ); }
    void dump( std::ostream& o ) override { dump_instance( o, *static_cast< const flatdata::Struct< T >& >( v ) ); }
    std::unique_ptr< Prepared > clone( ) override { return std::unique_ptr< Prepared >( new PreparedStruct( *this ) ); }
};
struct PreparedRaw : Prepared
{
    std::unique_ptr< unsigned char[] > d;
    size_t n = 0;
};

template < typename T >
std::unique_ptr< Prepared >
prepare_vector( const Value& x )
{
    std::unique_ptr< PreparedVector< T > > p( new PreparedVector< T > );
    for ( auto& r : x.rows ) Ops< T >::set( p->v.grow( ), r.data( ) );
    return std::move( p );
}
template < typename T >
std::unique_ptr< Prepared >
prepare_struct( const Value& x )
{
    std::unique_ptr< PreparedStruct< T > > p( new PreparedStruct< T > );
    if ( !x.rows.empty( ) ) Ops< T >::set( *p->v, x.rows.at( 0 ).data( ) );
    return std::move( p );
}
inline std::unique_ptr< Prepared >
prepare_raw( const Value& x )
{
    std::unique_ptr< PreparedRaw > p( new PreparedRaw );
    p->d.reset( new unsigned char[ x.raw.size( ) + 1 ] );   // raw data may be empty but never null
    std::memcpy( p->d.get( ), x.raw.data( ), x.raw.size( ) );
    p->n = x.raw.size( );
    return std::move( p );
}

struct Builder
{
    virtual ~Builder( ) = default;
    virtual bool open( ) = 0;
    virtual std::unique_ptr< Prepared > prepare( int res, const Value& v ) = 0;
    virtual bool set( int res, Prepared& p ) = 0;
    virtual std::unique_ptr< Stream > start( int res ) = 0;
    virtual std::unique_ptr< Builder > sub( int res ) = 0;
};

#ifdef DRV_VIEWS
// ---------------------------------------------------------------- what a user may hold of an open archive
using Toks = std::vector< std::string >;
inline uint64_t
tok( const Toks& t, size_t i )
{
    return strtoull( t.at( i ).c_str( ), nullptr, 10 );
}
inline long
stok( const Toks& t, size_t i )
{
    return i < t.size( ) ? strtol( t[ i ].c_str( ), nullptr, 10 ) : 0;
}
inline std::string
flat( std::string s )
{
    for ( auto& c : s )
        if ( c == '\n' ) c = '~';
    return s;
}
template < typename T >
std::string
element( const T& x )
{
    uint64_t out[ MAXF ];
    int k = Ops< T >::get( x, out );
    std::ostringstream o;
    o << "el";
    print_row( o, out, k );
    return o.str( );
}

/// an iterator
struct Cursor
{
    virtual ~Cursor( ) = default;
    virtual std::unique_ptr< Cursor > clone( ) const = 0;
    virtual std::string step( const std::string& how, long n ) = 0;
    virtual std::string look( const std::string& how, long n ) const = 0;
    virtual std::string compare( const Cursor& other ) const = 0;
};
template < typename T >
struct ArrayCursor : Cursor
{
    using It = typename flatdata::ArrayView< T >::const_iterator;
    It it;
    explicit ArrayCursor( It x ) : it( x ) {}
    std::unique_ptr< Cursor > clone( ) const override { return std::unique_ptr< Cursor >( new ArrayCursor( *this ) ); }
    std::string step( const std::string& how, long n ) override
    {
        if ( how == "i" ) { It r = ++it; return r == it ? "ok" : "DIFFERENT"; }
        if ( how == "d" ) { It r = --it; return r == it ? "ok" : "DIFFERENT"; }
        if ( how == "I" ) { It b = it; It r = it++; return r == b && it != b ? "ok" : "DIFFERENT"; }
        if ( how == "D" ) { It b = it; It r = it--; return r == b && it != b ? "ok" : "DIFFERENT"; }
        if ( how == "+=" ) { It& r = ( it += n ); return &r == &it ? "ok" : "DIFFERENT"; }
        if ( how == "-=" ) { It& r = ( it -= n ); return &r == &it ? "ok" : "DIFFERENT"; }
        if ( how == "+" ) { It b = it; It r = it + n; bool same = it == b; it = r; return same ? "ok" : "DIFFERENT"; }
        if ( how == "-" ) { It b = it; It r = it - n; bool same = it == b; it = r; return same ? "ok" : "DIFFERENT"; }
        if ( how == "adv" ) { std::advance( it, n ); return "ok"; }
        return "unknown";
    }
    std::string look( const std::string& how, long n ) const override
    {
        if ( how == "*" ) return element< T >( *it );
        if ( how == "[" ) return element< T >( it[ n ] );
        // through operator->
        auto p = it.operator->( );
        T x = *p.operator->( );
        return element< T >( x ) + " " + ( it->data( ) == x.data( ) ? "" : "DIFFERENT" );
    }
    std::string compare( const Cursor& other ) const override
    {
        const It& a = it;
        const It& b = static_cast< const ArrayCursor& >( other ).it;
        std::ostringstream o;
        o << "cmp " << ( a == b ) << ( a != b ) << ( a < b ) << ( a <= b ) << ( a > b ) << ( a >= b ) << " " << ( a - b ) << " " << std::distance( b, a );
        return o.str( );
    }
};
template < typename View, typename T >
struct BucketCursor : Cursor
{
    using It = decltype( std::declval< const View& >( ).template iterator< T >( 0 ) );
    It it;
    explicit BucketCursor( It x ) : it( x ) {}
    std::unique_ptr< Cursor > clone( ) const override { return std::unique_ptr< Cursor >( new BucketCursor( *this ) ); }
    std::string step( const std::string& how, long ) override
    {
        if ( how == "i" ) ++it; else it++;
        return "ok";
    }
    std::string look( const std::string&, long ) const override { return it.valid( ) ? element< T >( *it ) : "end"; }
    std::string compare( const Cursor& ) const override { return "none"; }
};

struct Kept
{
    virtual ~Kept( ) = default;
    virtual std::unique_ptr< Kept > derive( const Toks& ) = 0;      // vd id from how ...
    virtual std::string look( const Toks& ) = 0;                    // vl id how ...
    virtual std::unique_ptr< Cursor > cursor( const Toks& ) { return nullptr; }   // ik id from how ...
};

template < typename T >
struct ArrayKept : Kept
{
    flatdata::ArrayView< T > v;
    explicit ArrayKept( flatdata::ArrayView< T > x ) : v( x ) {}
    std::unique_ptr< Kept > derive( const Toks& t ) override
    {
        const std::string& h = t.at( 3 );
        auto mk = []( flatdata::ArrayView< T > x ) { return std::unique_ptr< Kept >( new ArrayKept( x ) ); };
        if ( h == "cp" ) return mk( v );
        uint64_t a = tok( t, 4 ), n = v.size( );
        if ( h == "sl" ) { uint64_t l = tok( t, 5 ); return a + l <= n ? mk( v.slice( a, l ) ) : nullptr; }
        if ( h == "sp" ) { uint64_t e = tok( t, 5 ); return a <= e && e <= n ? mk( v.slice( std::make_pair( size_t( a ), size_t( e ) ) ) ) : nullptr; }
        if ( a > n ) return nullptr;
        if ( h == "sb" ) return mk( v.slice_before( a ) );
        if ( h == "sa" ) return mk( v.slice_after( a ) );
        if ( h == "sk" ) return mk( v.skip( a ) );
        if ( h == "sL" ) return mk( v.skip_last( a ) );
        if ( h == "be" && !v.empty( ) && !T::IS_OVERLAPPING_WITH_NEXT )     // from the bytes themselves
            return mk( flatdata::ArrayView< T >( v[ a ].data( ), v.data( ) + v.size_in_bytes( ) ) );
        return nullptr;
    }
    std::string look( const Toks& t ) override
    {
        const std::string& h = t.at( 2 );
        std::ostringstream o;
        uint64_t n = v.size( );
        if ( h == "n" )
        {
            o << "n " << n << " " << v.size_in_bytes( ) << " " << v.empty( ) << static_cast< bool >( v ) << " " << v.describe( );
            return o.str( );
        }
        if ( h == "all" ) { dump_view( o, v ); return o.str( ); }
        if ( h == "rev" )
        {
            Crc c;
            uint64_t out[ MAXF ], k = 0;
            auto it = v.end( );
            while ( it != v.begin( ) && k++ <= n )
            {
                --it;
                c.row( out, Ops< T >::get( *it, out ) );
            }
            o << "rev " << k << " " << c.v;
            return o.str( );
        }
        if ( !n ) return "none";
        if ( h == "fr" ) return element< T >( v.front( ) );
        if ( h == "bk" ) return element< T >( v.back( ) );
        uint64_t a = tok( t, 3 );
        if ( a >= n ) return "none";
        if ( h == "at" ) return element< T >( v[ a ] );
        if ( h == "ts" ) return "ts " + flat( v[ a ].to_string( ) ) + " " + v[ a ].describe( );
        if ( h == "find" )
        {
            auto it = std::find_if( v.begin( ), v.end( ), [ & ]( T x ) { return x == v[ a ]; } );
            o << "found " << ( it - v.begin( ) ) << " " << std::count_if( v.begin( ), v.end( ), [ & ]( T x ) { return x != v[ a ]; } );
            return o.str( );
        }
        if ( h == "pp" )
        {
            auto it = std::partition_point( v.begin( ), v.end( ), [ & ]( T x ) { return x.data( ) < v[ a ].data( ); } );
            o << "found " << ( it - v.begin( ) ) << " " << ( v.end( ) - it );
            return o.str( );
        }
        if ( h == "eq" )
        {
            uint64_t b = tok( t, 4 );
            if ( b >= n ) return "none";
            T x = v[ a ], y = v[ b ];
            o << "eq " << ( x == y ) << ( x != y ) << " " << ( flatdata::Hash( )( x ) == flatdata::Hash( )( y ) || !( x == y ) );
            return o.str( );
        }
        return "unknown";
    }
    std::unique_ptr< Cursor > cursor( const Toks& t ) override
    {
        return std::unique_ptr< Cursor >( new ArrayCursor< T >( t.at( 3 ) == "b" ? v.begin( ) : v.end( ) ) );
    }
};

struct Stopped : std::runtime_error
{
    Stopped( ) : std::runtime_error( "stopped" ) {}
};
/// callable with two types only
template < typename C, typename A, typename B >
struct Both
{
    const C* c;
    void operator( )( A x ) const { ( *c )( x ); }
    void operator( )( B x ) const { ( *c )( x ); }
};
/// appends what it is called with; stops at a given element
template < typename... Args >
struct Collect
{
    std::ostringstream* o;
    long* left;
    template < typename T, int I = IndexOf< T, Args... >::value >
    void
    operator( )( T x ) const
    {
        if ( ( *left )-- == 0 ) throw Stopped( );
        *o << " " << I << ":" << element< T >( x ).substr( 3 );
    }
};
template < typename IndexType, typename... Args >
struct MultiKept : Kept
{
    using V = flatdata::MultiArrayView< IndexType, Args... >;
    using First = typename std::tuple_element< 0, std::tuple< Args... > >::type;
    using Last = typename std::tuple_element< sizeof...( Args ) - 1, std::tuple< Args... > >::type;
    V v;
    explicit MultiKept( V x ) : v( x ) {}
    std::unique_ptr< Kept > derive( const Toks& t ) override { return t.at( 3 ) == "cp" ? std::unique_ptr< Kept >( new MultiKept( v ) ) : nullptr; }
    template < typename T >
    static void one( const V& v, uint64_t i, const Collect< Args... >& c )
    {
        v.template for_each< T >( i, [ & ]( T x ) { c( x ); } );
    }
    template < typename T >
    static std::unique_ptr< Cursor > it( const V& v, uint64_t i )
    {
        return std::unique_ptr< Cursor >( new BucketCursor< V, T >( v.template iterator< T >( i ) ) );
    }
    template < typename A, typename B >
    static typename std::enable_if< !std::is_same< A, B >::value >::type
    two( const V& v, uint64_t i, const Collect< Args... >& c, bool over )
    {
        if ( over )
        {
            v.for_each( i, flatdata::make_overload( [ & ]( A x ) { c( x ); }, [ & ]( B x ) { c( x ); } ) );
        }
        else
        {
            v.template for_each< A, B >( i, Both< Collect< Args... >, A, B >{ &c } );
        }
    }
    template < typename A, typename B >
    static typename std::enable_if< std::is_same< A, B >::value >::type
    two( const V& v, uint64_t i, const Collect< Args... >& c, bool )
    {
        one< A >( v, i, c );
    }
    std::string look( const Toks& t ) override
    {
        const std::string& h = t.at( 2 );
        std::ostringstream o;
        uint64_t n = v.size( );
        if ( h == "n" )
        {
            o << "n " << n << " " << static_cast< bool >( v ) << " " << v.describe( );
            return o.str( );
        }
        if ( h == "all" ) { dump_multi( o, v ); return o.str( ); }
        uint64_t i = tok( t, 3 );
        if ( i >= n ) return "none";
        long left = h == "th" ? stok( t, 4 ) : -1;
        Collect< Args... > c{ &o, &left };
        o << "bucket";
        try
        {
            if ( h == "b" || h == "th" ) v.for_each( i, c );
            else if ( h == "o" )
            {
                static constexpr void ( *f[] )( const V&, uint64_t, const Collect< Args... >& ) = { &one< Args >... };
                f[ tok( t, 4 ) % sizeof...( Args ) ]( v, i, c );
            }
            else two< First, Last >( v, i, c, h == "ov" );
        }
        catch ( const Stopped& )
        {
            o << " stopped";
        }
        return o.str( );
    }
    std::unique_ptr< Cursor > cursor( const Toks& t ) override
    {
        uint64_t i = tok( t, 4 );
        if ( i >= v.size( ) ) return nullptr;
        static constexpr std::unique_ptr< Cursor > ( *f[] )( const V&, uint64_t ) = { &it< Args >... };
        return f[ tok( t, 3 ) % sizeof...( Args ) ]( v, i );
    }
};

template < typename T >
struct InstKept : Kept
{
    T x;
    explicit InstKept( T y ) : x( y ) {}
    std::unique_ptr< Kept > derive( const Toks& t ) override { return t.at( 3 ) == "cp" ? std::unique_ptr< Kept >( new InstKept( x ) ) : nullptr; }
    std::string look( const Toks& t ) override
    {
        const std::string& h = t.at( 2 );
        if ( h == "all" ) return element< T >( x );
        if ( h == "ts" ) return "ts " + flat( x.to_string( ) ) + " " + x.describe( );
        std::ostringstream o;
        o << "n " << x.size_in_bytes( ) << " " << static_cast< bool >( x ) << " " << T::name( );
        return o.str( );
    }
};

struct RawKept : Kept
{
    flatdata::MemoryDescriptor m;
    explicit RawKept( flatdata::MemoryDescriptor x ) : m( x ) {}
    std::unique_ptr< Kept > derive( const Toks& t ) override { return t.at( 3 ) == "cp" ? std::unique_ptr< Kept >( new RawKept( m ) ) : nullptr; }
    std::string look( const Toks& t ) override
    {
        const std::string& h = t.at( 2 );
        std::ostringstream o;
        if ( h == "n" )
        {
            o << "n " << m.size( ) << " " << m.size_in_bytes( ) << " " << static_cast< bool >( m ) << " " << m.describe( );
            return o.str( );
        }
        uint64_t a = h == "by" ? tok( t, 3 ) : 0, b = h == "by" ? tok( t, 4 ) : m.size( );
        if ( a > b || b > m.size( ) ) return "none";
        Crc c;
        c.add( h == "by" ? reinterpret_cast< const unsigned char* >( m.char_ptr( ) ) + a : m.data( ), b - a );
        o << "bytes " << c.v;
        return o.str( );
    }
};

template < typename T >
std::unique_ptr< Kept > make_kept( const flatdata::ArrayView< T >& v ) { return std::unique_ptr< Kept >( new ArrayKept< T >( v ) ); }
template < typename I, typename... A >
std::unique_ptr< Kept > make_kept( const flatdata::MultiArrayView< I, A... >& v ) { return std::unique_ptr< Kept >( new MultiKept< I, A... >( v ) ); }
inline std::unique_ptr< Kept > make_kept( const flatdata::MemoryDescriptor& v ) { return std::unique_ptr< Kept >( new RawKept( v ) ); }
template < typename T, typename = decltype( Ops< T >::get ) >
std::unique_ptr< Kept > make_kept( const T& v ) { return std::unique_ptr< Kept >( new InstKept< T >( v ) ); }
#endif

struct Arch
{
    virtual ~Arch( ) = default;
    virtual bool open( ) = 0;
    virtual void dump( std::ostream& o, const std::string& path ) = 0;
    virtual std::string describe( ) = 0;
#ifdef DRV_VIEWS
    virtual std::unique_ptr< Kept > keep( int res ) = 0;
    virtual std::unique_ptr< Arch > sub( int res ) = 0;
    virtual std::unique_ptr< Arch > clone( ) = 0;
    virtual std::unique_ptr< Arch > move( ) = 0;
    virtual bool assign( Arch& other ) = 0;
#endif
};

struct SchemaOps
{
    std::function< std::unique_ptr< Builder >( int archive, std::shared_ptr< flatdata::ResourceStorage > ) > builder;
    std::function< std::unique_ptr< Arch >( int archive, std::shared_ptr< flatdata::ResourceStorage > ) > archive;
};

std::map< std::string, SchemaOps >& schemas( );

struct Register
{
    Register( const char* id, SchemaOps ops ) { schemas( )[ id ] = ops; }
};

}  // namespace drv
