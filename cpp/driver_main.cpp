// Command interpreter around the real flatdata C++ library; every scenario runs in a forked child.
#include "driver.h"

#include <flatdata/MemoryMappedTarFileStorage.h>
#include <flatdata/TarArchiveResourceStorage.h>

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <sched.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
void sim_begin( const char* );
void sim_end( );
void sim_pause( int );
void sim_capacity( long );
void sim_rule( long, int, const char*, long, int, long, int, long );
void sim_clear_rules( );
void sim_thaw( );
int sim_frozen( int );
long sim_ops( );
const char* sim_log( );
long sim_kind( int );
}

static bool g_armed;
static long g_storage_faults, g_alloc_failed_total;
static long g_alloc_count, g_alloc_fail = -1, g_alloc_len = 1, g_alloc_failed;
#ifdef SIM_THREADS
// ---------------------------------------------------------------- under the thread simulator: what is library code
extern "C" {
int thr_in_lib( int );
void thr_arena( );
void thr_schedule( int, uint64_t, uint64_t, uint64_t, int, uint64_t );
void thr_plan( const uint64_t*, long );
void thr_parallel( int, void* ( * )( void* ), void** );
void thr_report( );
void thr_stats( uint64_t* );
}
struct Armed
{
    int before;
    Armed( ) { before = thr_in_lib( 1 ); }
    ~Armed( ) { if ( before ) thr_in_lib( 0 ); }
};
using Reading = Armed;
#else
// ---------------------------------------------------------------- allocation faults
static void*
alloc( size_t n )
{
    if ( g_armed )
    {
        long k = g_alloc_count++;
        if ( g_alloc_fail >= 0 && k >= g_alloc_fail && k < g_alloc_fail + g_alloc_len )
        {
            g_alloc_failed++;
            g_alloc_failed_total++;
            throw std::bad_alloc( );
        }
    }
    void* p = malloc( n ? n : 1 );
    if ( !p ) throw std::bad_alloc( );
    return p;
}
void* operator new( size_t n ) { return alloc( n ); }
void* operator new[]( size_t n ) { return alloc( n ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept
{
    try { return alloc( n ); } catch ( ... ) { return nullptr; }
}
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept
{
    try { return alloc( n ); } catch ( ... ) { return nullptr; }
}
void operator delete( void* p ) noexcept { free( p ); }
void operator delete[]( void* p ) noexcept { free( p ); }
void operator delete( void* p, size_t ) noexcept { free( p ); }
void operator delete[]( void* p, size_t ) noexcept { free( p ); }
struct Armed
{
    Armed( ) { g_armed = true; }
    ~Armed( ) { g_armed = false; }
};
struct Reading
{
    Reading( ) {}
};
#endif

namespace drv
{
static uint32_t crc_table[ 256 ];
static void
crc_init( )
{
    for ( uint32_t i = 0; i < 256; i++ )
    {
        uint32_t c = i;
        for ( int k = 0; k < 8; k++ ) c = c & 1 ? 0xEDB88320u ^ ( c >> 1 ) : c >> 1;
        crc_table[ i ] = c;
    }
}
uint32_t
crc_update( uint32_t crc, const void* data, size_t n )
{
    const unsigned char* p = static_cast< const unsigned char* >( data );
    crc = ~crc;
    while ( n-- ) crc = crc_table[ ( crc ^ *p++ ) & 255 ] ^ ( crc >> 8 );
    return ~crc;
}
std::map< std::string, SchemaOps >&
schemas( )
{
    static std::map< std::string, SchemaOps > m;
    return m;
}

// ---------------------------------------------------------------- a storage that cannot always provide streams
struct FaultPlan
{
    long calls = 0, null_at = -1, null_len = 1, limit_at = -1;
    size_t limit = 0;
    bool bad_from_start = false;
};
class LimitedBuf : public std::stringbuf
{
public:
    size_t left;
    explicit LimitedBuf( size_t n ) : std::stringbuf( std::ios::out | std::ios::binary ), left( n ) {}

protected:
    std::streamsize xsputn( const char* s, std::streamsize n ) override
    {
        std::streamsize k = std::min< std::streamsize >( n, static_cast< std::streamsize >( left ) );
        if ( k < n ) g_storage_faults++;
        left -= k;
        std::streamsize r = std::stringbuf::xsputn( s, k );
        return r;
    }
    int_type overflow( int_type c ) override
    {
        if ( !left )
        {
            g_storage_faults++;
            return traits_type::eof( );
        }
        left--;
        return std::stringbuf::overflow( c );
    }
};
class LimitedStream : public std::ostream
{
    LimitedBuf buf;

public:
    explicit LimitedStream( size_t n ) : std::ostream( nullptr ), buf( n ) { rdbuf( &buf ); }
    std::string str( ) const { return buf.str( ); }
};
struct FaultyData
{
    FaultPlan plan;
    std::map< std::string, std::shared_ptr< LimitedStream > > streams;
    std::map< std::string, std::shared_ptr< std::string > > read;
    std::set< std::string > dirs;
};
class FaultyStorage : public flatdata::ResourceStorage
{
    std::shared_ptr< FaultyData > d;
    std::string prefix;

public:
    FaultyStorage( std::shared_ptr< FaultyData > x, std::string p ) : d( x ), prefix( p ) {}
    std::unique_ptr< ResourceStorage > create_directory( const char* key ) override
    {
        if ( hit( ) ) return nullptr;
        d->dirs.insert( prefix + key );
        return std::unique_ptr< ResourceStorage >( new FaultyStorage( d, prefix + key + "/" ) );
    }
    std::unique_ptr< ResourceStorage > directory( const char* key ) override
    {
        if ( !d->dirs.count( prefix + key ) ) return nullptr;
        return std::unique_ptr< ResourceStorage >( new FaultyStorage( d, prefix + key + "/" ) );
    }
    bool exists( const char* key ) override { return d->streams.count( prefix + key ) || d->dirs.count( prefix + key ); }

protected:
    bool hit( )
    {
        long k = d->plan.calls++;
        bool h = d->plan.null_at >= 0 && k >= d->plan.null_at && k < d->plan.null_at + d->plan.null_len;
        if ( h ) g_storage_faults++;
        return h;
    }
    std::shared_ptr< std::ostream > create_output_stream( const char* key ) override
    {
        if ( hit( ) ) return nullptr;
        bool lim = d->plan.limit_at >= 0 && d->plan.calls - 1 == d->plan.limit_at;
        auto s = std::make_shared< LimitedStream >( lim ? d->plan.limit : static_cast< size_t >( -1 ) / 2 );
        if ( lim && d->plan.bad_from_start )
        {
            g_storage_faults++;
            s->setstate( std::ios::badbit );
        }
        d->streams[ prefix + key ] = s;
        return s;
    }
    flatdata::MemoryDescriptor read_resource( const char* key ) override
    {
        auto f = d->streams.find( prefix + key );
        if ( f == d->streams.end( ) ) return flatdata::MemoryDescriptor( );
        auto& r = d->read[ prefix + key ];
        std::string now = f->second->str( );
        if ( !r || *r != now ) r = std::make_shared< std::string >( now );
        return flatdata::MemoryDescriptor( reinterpret_cast< const unsigned char* >( r->data( ) ), r->size( ) );
    }
};

// ---------------------------------------------------------------- interpreter
struct StreamSlot
{
    std::unique_ptr< Stream > s;
    unsigned char* cur = nullptr;
    int cur_type = 0;
};
struct PreparedSlot
{
    std::unique_ptr< Prepared > p;
    unsigned char* cur = nullptr;
    int res = 0;
};
struct World
{
    std::map< int, PreparedSlot > prepared;
    std::map< int, std::shared_ptr< flatdata::ResourceStorage > > storages;
    std::map< int, std::unique_ptr< Builder > > builders;
    std::map< int, StreamSlot > streams;
    std::map< int, std::unique_ptr< Arch > > archives;
#ifdef DRV_VIEWS
    std::map< int, std::unique_ptr< Kept > > kept;
    std::map< int, std::unique_ptr< Cursor > > cursors;
#endif
    std::map< int, std::shared_ptr< FaultyData > > faulty;
    void clear( )
    {
        prepared.clear( );
        streams.clear( );
#ifdef DRV_VIEWS
        cursors.clear( );
        kept.clear( );
#endif
        archives.clear( );
        builders.clear( );
        storages.clear( );
        faulty.clear( );
    }
};

static std::vector< std::string >
split( const std::string& s, char sep )
{
    std::vector< std::string > out;
    size_t i = 0;
    while ( i <= s.size( ) )
    {
        size_t j = s.find( sep, i );
        if ( j == std::string::npos ) j = s.size( );
        if ( j > i || sep != ' ' ) out.push_back( s.substr( i, j - i ) );
        i = j + 1;
    }
    return out;
}
static uint64_t
num( const std::string& s )
{
    if ( !s.empty( ) && s[ 0 ] == '-' ) return static_cast< uint64_t >( strtoll( s.c_str( ), nullptr, 10 ) );
    return strtoull( s.c_str( ), nullptr, 10 );
}
static Row
row( const std::string& s )
{
    Row r;
    if ( s == "u" ) return r;  // fields left as they are
    for ( auto& x : split( s, ',' ) ) r.push_back( num( x ) );
    return r;
}
static std::string
unhex( const std::string& s )
{
    std::string r;
    auto v = []( char c ) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for ( size_t i = 0; i + 1 < s.size( ); i += 2 ) r.push_back( static_cast< char >( v( s[ i ] ) * 16 + v( s[ i + 1 ] ) ) );
    return r;
}
/// rows "a,b;c,d" (empty: "-"), raw "x<hex>" or "z<len>"
static Value
value( const std::string& s )
{
    Value v;
    if ( s.empty( ) || s == "-" ) return v;
    if ( s[ 0 ] == 'x' )
    {
        v.raw = unhex( s.substr( 1 ) );
        return v;
    }
    if ( s[ 0 ] == 'z' )
    {
        size_t n = num( s.substr( 1 ) );
        v.raw.resize( n );
        for ( size_t i = 0; i < n; i++ ) v.raw[ i ] = static_cast< char >( ( i * 31 + ( i >> 8 ) ) & 255 );
        return v;
    }
    std::string body = s;
    size_t reps = 1;
    size_t star = s.find( '*' );
    if ( star != std::string::npos )
    {
        reps = num( s.substr( 0, star ) );
        body = s.substr( star + 1 );
    }
    std::vector< Row > rows;
    for ( auto& r : split( body, ';' ) ) rows.push_back( row( r ) );
    for ( size_t i = 0; i < reps; i++ ) v.rows.insert( v.rows.end( ), rows.begin( ), rows.end( ) );
    return v;
}

static void
raw_write_file( const std::string& path, const std::string& data )
{
    int fd = static_cast< int >( syscall( SYS_openat, AT_FDCWD, path.c_str( ), O_WRONLY | O_CREAT | O_TRUNC, 0666 ) );
    if ( fd < 0 ) return;
    size_t o = 0;
    while ( o < data.size( ) )
    {
        long k = syscall( SYS_write, fd, data.data( ) + o, data.size( ) - o );
        if ( k <= 0 ) break;
        o += k;
    }
    syscall( SYS_close, fd );
}

struct Interp
{
    World w;
    StreamSlot&
    stream( const std::string& id )
    {
        return w.streams[ atoi( id.c_str( ) ) ];
    }

    std::string
    command( const std::vector< std::string >& t )
    {
        const std::string& c = t[ 0 ];
        std::ostringstream o;
        auto I = [ & ]( size_t i ) { return atoi( t.at( i ).c_str( ) ); };
        auto L = [ & ]( size_t i ) { return strtol( t.at( i ).c_str( ), nullptr, 10 ); };
        // ---- simulator
        if ( c == "B" ) { sim_begin( t.at( 1 ).c_str( ) ); return "ok"; }
        if ( c == "R" )
        {
            sim_rule( L( 1 ), I( 2 ), t.at( 3 ) == "-" ? "" : t.at( 3 ).c_str( ), L( 4 ), I( 5 ), L( 6 ), I( 7 ), L( 8 ) );
            return "ok";
        }
        if ( c == "C" ) { sim_capacity( L( 1 ) ); return "ok"; }
        if ( c == "X" ) { sim_clear_rules( ); return "ok"; }
        if ( c == "E" ) { sim_end( ); return "ok"; }
        if ( c == "T" )
        {
            w.clear( );
            sim_thaw( );
            return "ok";
        }
        if ( c == "L" )
        {
            o << "log " << sim_ops( );
            for ( int k : { 1, 2, 3, 4, 16, 20 } ) o << " " << sim_kind( k );
            std::string l = sim_log( );
            for ( auto& ch : l )
                if ( ch == '\n' ) ch = '|';
            o << " |" << l;
            return o.str( );
        }
        if ( sim_frozen( 0 ) ) return "-";
        // ---- storages
        if ( c == "S" )
        {
            std::shared_ptr< flatdata::ResourceStorage > s;
            const std::string& k = t.at( 2 );
            if ( k == "flt" )
            {
                auto d = std::make_shared< FaultyData >( );
                d->plan.null_at = L( 3 );
                d->plan.null_len = L( 4 );
                d->plan.limit_at = L( 5 );
                d->plan.limit = num( t.at( 6 ) );
                d->plan.bad_from_start = I( 7 ) != 0;
                w.faulty[ I( 1 ) ] = d;
                s.reset( new FaultyStorage( d, "" ) );
            }
            else
            {
                Armed a;
                if ( k == "fc" ) s = flatdata::FileResourceStorage::create( t.at( 3 ).c_str( ) );
                else if ( k == "fo" ) s = flatdata::FileResourceStorage::open( t.at( 3 ).c_str( ) );
                else if ( k == "mem" ) s = flatdata::MemoryResourceStorage::create( );
                else if ( k == "tar" ) s = flatdata::TarArchiveResourceStorage::create( t.at( 3 ).c_str( ), t.size( ) > 4 ? t[ 4 ].c_str( ) : "" );
            }
            bool ok = static_cast< bool >( s );
            w.storages[ I( 1 ) ] = std::move( s );
            return ok ? "ok" : "null";
        }
        if ( c == "SF" )     // heal a faulty storage
        {
            w.faulty.at( I( 1 ) )->plan.null_at = -1;
            w.faulty.at( I( 1 ) )->plan.limit_at = -1;
            return "ok";
        }
        if ( c == "SD" )
        {
            std::shared_ptr< flatdata::ResourceStorage > s;
            auto& p = w.storages.at( I( 2 ) );
            if ( !p ) return "none";
            {
                Armed a;
                if ( t.at( 4 ) == "c" ) s = p->create_directory( t.at( 3 ).c_str( ) );
                else s = p->directory( t.at( 3 ).c_str( ) );
            }
            bool ok = static_cast< bool >( s );
            w.storages[ I( 1 ) ] = std::move( s );
            return ok ? "ok" : "null";
        }
        if ( c == "SX" ) { auto x = w.storages.extract( I( 1 ) ); Armed a; { auto y = std::move( x ); } return "ok"; }
        if ( c == "ex" )
        {
            auto& p = w.storages[ I( 1 ) ];
            if ( !p ) return "none";
            Armed a;
            bool e = p->exists( t.at( 2 ).c_str( ) );
            return e ? "true" : "false";
        }
        if ( c == "rs" )     // schema of a resource as stored
        {
            auto& p = w.storages[ I( 1 ) ];
            if ( !p ) return "none";
            flatdata::MemoryDescriptor m;
            {
                Armed a;
                m = p->read_schema( t.at( 2 ).c_str( ) );
            }
            Reading rd;
            dump_raw( o, m );
            return o.str( );
        }
        if ( c == "rd" )     // resource with its own stored schema
        {
            auto& p = w.storages[ I( 1 ) ];
            if ( !p ) return "none";
            flatdata::MemoryDescriptor m;
            {
                Reading rd;
                m = p->read_schema( t.at( 2 ).c_str( ) );
            }
            std::string schema = m ? std::string( m.char_ptr( ), m.size( ) ) : std::string( );
            boost::optional< flatdata::MemoryDescriptor > r;
            {
                Armed a;
                r = p->read< flatdata::MemoryDescriptor >( t.at( 2 ).c_str( ), schema.c_str( ) );
            }
            if ( !r ) return "none";
            Reading rd;
            dump_raw( o, *r );
            return o.str( );
        }
        if ( c == "wr" )     // wr sid key schema value: a resource written through the storage itself
        {
            auto& p = w.storages[ I( 1 ) ];
            if ( !p ) return "none";
            Value v = value( t.at( 4 ) );
            bool ok;
            {
                Armed a;
                ok = p->write( t.at( 2 ).c_str( ), t.at( 3 ).c_str( ),
                               flatdata::MemoryDescriptor( reinterpret_cast< const unsigned char* >( v.raw.data( ) ), v.raw.size( ) ) );
            }
            return ok ? "true" : "false";
        }
        if ( c == "rx" )     // rx sid key schema: read with this schema
        {
            auto& p = w.storages[ I( 1 ) ];
            if ( !p ) return "none";
            boost::optional< flatdata::MemoryDescriptor > r;
            {
                Armed a;
                r = p->read< flatdata::MemoryDescriptor >( t.at( 2 ).c_str( ), t.at( 3 ).c_str( ) );
            }
            if ( !r ) return "none";
            Reading rd;
            dump_raw( o, *r );
            return o.str( );
        }
        if ( c == "md" )     // dumps of a memory storage
        {
            auto* p = dynamic_cast< flatdata::MemoryResourceStorage* >( w.storages[ I( 1 ) ].get( ) );
            if ( !p ) return "none";
            Reading rd;
            std::string h = p->hexdump( true ), b = p->bindump( true );
            Crc k;
            k.add( h.data( ), h.size( ) );
            o << "dump " << h.size( ) << " " << b.size( ) << " " << k.v;
            return o.str( );
        }
        // ---- builders
        if ( c == "b" )
        {
            auto& s = w.storages[ I( 4 ) ];
            std::unique_ptr< Builder > b;
            bool ok;
            {
                auto& f = schemas( ).at( t.at( 2 ) ).builder;
                Armed a;
                b = f( I( 3 ), s );
                ok = b->open( );
            }
            w.builders[ I( 1 ) ] = std::move( b );
            return ok ? "open" : "closed";
        }
        if ( c == "bs" )
        {
            auto f = w.builders.find( I( 2 ) );
            if ( f == w.builders.end( ) || !f->second || !f->second->open( ) ) return "none";
            std::unique_ptr< Builder > b;
            bool ok;
            {
                Armed a;
                b = f->second->sub( I( 3 ) );
                ok = b->open( );
            }
            w.builders[ I( 1 ) ] = std::move( b );
            return ok ? "open" : "closed";
        }
        if ( c == "bd" ) { auto x = w.builders.extract( I( 1 ) ); Armed a; { auto y = std::move( x ); } return "ok"; }
        if ( c == "set" )
        {
            auto f = w.builders.find( I( 1 ) );
            if ( f == w.builders.end( ) || !f->second || !f->second->open( ) ) return "none";
            auto p = f->second->prepare( I( 2 ), value( t.size( ) > 3 ? t[ 3 ] : "" ) );
            bool ok;
            {
                Armed a;
                ok = f->second->set( I( 2 ), *p );
            }
            return ok ? "true" : "false";
        }
        if ( c == "st" )
        {
            auto f = w.builders.find( I( 2 ) );
            w.streams.erase( I( 1 ) );
            if ( f == w.builders.end( ) || !f->second || !f->second->open( ) ) return "none";
            std::unique_ptr< Stream > s;
            {
                Armed a;
                s = f->second->start( I( 3 ) );
            }
            w.streams[ I( 1 ) ].s = std::move( s );
            return "ok";
        }
        // ---- vectors and structs in memory
        if ( c == "pn" )
        {
            auto f = w.builders.find( I( 2 ) );
            if ( f == w.builders.end( ) || !f->second ) return "none";
            auto& s = w.prepared[ I( 1 ) ];
            s.p = f->second->prepare( I( 3 ), Value( ) );
            s.res = I( 3 );
            s.cur = s.p->size( ) ? s.p->at( 0, 0 ) : nullptr;
            return "ok";
        }
        if ( c == "pg" || c == "pat" || c == "prs" || c == "prv" || c == "ppo" || c == "pf" || c == "pfr" || c == "psz" || c == "pd" || c == "pset" || c == "pcp" )
        {
            auto f = w.prepared.find( I( 1 ) );
            if ( f == w.prepared.end( ) || !f->second.p ) return "none";
            auto& s = f->second;
            if ( c == "pg" )
            {
                {
                    Armed a;
                    s.cur = s.p->grow( );
                }
                if ( s.cur && t.size( ) > 2 ) s.p->set( s.cur, row( t[ 2 ] ).data( ) );
                return s.cur ? "ok" : "none";
            }
            if ( c == "pat" )
            {
                if ( num( t.at( 2 ) ) >= s.p->size( ) ) return "none";
                s.cur = s.p->at( num( t.at( 2 ) ), I( 3 ) );
                return "ok";
            }
            if ( c == "prs" || c == "prv" || c == "ppo" )
            {
                s.cur = nullptr;
                if ( c == "ppo" && !s.p->size( ) ) return "none";
                Armed a;
                if ( c == "prs" ) s.p->resize( num( t.at( 2 ) ) );
                else if ( c == "prv" ) s.p->reserve( num( t.at( 2 ) ) );
                else s.p->pop( );
                return "ok";
            }
            if ( c == "pf" )
            {
                if ( !s.cur ) return "none";
                s.p->setf( s.cur, I( 2 ), num( t.at( 3 ) ), t.size( ) > 4 ? I( 4 ) : 0 );
                return "ok";
            }
            if ( c == "pfr" )
            {
                if ( !s.cur ) return "none";
                uint64_t out[ MAXF ];
                int k = s.p->get( s.cur, out );
                o << "row";
                print_row( o, out, k );
                return o.str( );
            }
            if ( c == "psz" )
            {
                o << "size " << s.p->size( );
                return o.str( );
            }
            if ( c == "pd" )
            {
                s.p->dump( o );
                return o.str( );
            }
            if ( c == "pcp" )      // pcp from to
            {
                auto& n = w.prepared[ I( 2 ) ];
                n.p = s.p->clone( );
                n.res = s.res;
                n.cur = n.p->size( ) ? n.p->at( 0, 0 ) : nullptr;
                return "ok";
            }
            auto b = w.builders.find( I( 2 ) );
            if ( b == w.builders.end( ) || !b->second || !b->second->open( ) ) return "none";
            bool ok;
            {
                Armed a;
                ok = b->second->set( s.res, *s.p );
            }
            return ok ? "true" : "false";
        }
        // ---- streams
        if ( c == "drop" ) { auto x = w.streams.extract( I( 1 ) ); Armed a; { auto y = std::move( x ); } return "ok"; }
        if ( c == "g" || c == "gt" || c == "g0" || c == "mg" || c == "ma" || c == "ma0" || c == "mt" || c == "f" || c == "fr" || c == "sz" || c == "c" )
        {
            auto& s = stream( t.at( 1 ) );
            if ( !s.s ) return "none";
            if ( c == "g" || c == "g0" )
            {
                unsigned char* p;
                {
                    Armed a;
                    p = s.s->grow( );
                }
                s.cur = p;
                s.cur_type = 0;
                if ( c == "g" ) s.s->set( s.cur, 0, row( t.at( 2 ) ).data( ) );
                return "ok";
            }
            if ( c == "gt" )       // gt sid n rows: cycle through rows n times
            {
                Value v = value( t.at( 3 ) );
                for ( long i = 0; i < L( 2 ); i++ )
                    for ( auto& r : v.rows )
                    {
                        {
                            Armed a;
                            s.cur = s.s->grow( );
                        }
                        s.cur_type = 0;
                        if ( !r.empty( ) ) s.s->set( s.cur, 0, r.data( ) );
                    }
                return "ok";
            }
            if ( c == "mg" )
            {
                s.cur = nullptr;
                Armed a;
                s.s->bucket( );
                return "ok";
            }
            if ( c == "ma" || c == "ma0" )
            {
                unsigned char* p;
                {
                    Armed a;
                    p = s.s->add( I( 2 ) );
                }
                s.cur = p;
                s.cur_type = I( 2 );
                if ( !p ) return "none";
                if ( c == "ma" ) s.s->set( s.cur, s.cur_type, row( t.at( 3 ) ).data( ) );
                return "ok";
            }
            if ( c == "mt" )       // mt sid n type:row;type:row  -> n buckets with these elements
            {
                std::vector< std::pair< int, Row > > els;
                if ( t.size( ) > 3 && t[ 3 ] != "-" )
                    for ( auto& x : split( t[ 3 ], ';' ) )
                    {
                        size_t k = x.find( ':' );
                        els.emplace_back( atoi( x.c_str( ) ), row( x.substr( k + 1 ) ) );
                    }
                for ( long i = 0; i < L( 2 ); i++ )
                {
                    s.s->bucket( );
                    for ( auto& e : els )
                    {
                        unsigned char* p;
                        {
                            Armed a;
                            p = s.s->add( e.first );
                        }
                        if ( !e.second.empty( ) ) s.s->set( p, e.first, e.second.data( ) );
                    }
                }
                s.cur = nullptr;
                return "ok";
            }
            if ( c == "f" )
            {
                if ( !s.cur ) return "none";
                s.s->setf( s.cur, s.cur_type, I( 2 ), num( t.at( 3 ) ), t.size( ) > 4 ? I( 4 ) : 0 );
                return "ok";
            }
            if ( c == "fr" )
            {
                if ( !s.cur ) return "none";
                uint64_t out[ MAXF ];
                int k = s.s->get( s.cur, s.cur_type, out );
                o << "row";
                print_row( o, out, k );
                return o.str( );
            }
            if ( c == "sz" )
            {
                o << "size " << s.s->size( );
                return o.str( );
            }
            s.cur = nullptr;
            {
                Armed a;
                s.s->close( );
            }
            Reading rd;
            s.s->dump( o );
            return o.str( );
        }
        // ---- archives
        if ( c == "o" )
        {
            auto& s = w.storages[ I( 4 ) ];
            std::unique_ptr< Arch > x;
            bool ok;
            {
                auto& f = schemas( ).at( t.at( 2 ) ).archive;
                Armed a;
                x = f( I( 3 ), s );
                ok = x->open( );
            }
            w.archives[ I( 1 ) ] = std::move( x );
            return ok ? "open" : "closed";
        }
        if ( c == "d" || c == "dp" )
        {
            auto f = w.archives.find( I( 1 ) );
            if ( f == w.archives.end( ) || !f->second ) return "none";
            {
                Reading rd;
                if ( c == "dp" ) part = Part{ size_t( I( 2 ) ), size_t( I( 3 ) ) };
                f->second->dump( o, "" );
                part = Part( );
            }
            std::string r = o.str( );
            for ( auto& ch : r )
                if ( ch == '\n' ) ch = '|';
            return r;
        }
        if ( c == "ds" )
        {
            auto f = w.archives.find( I( 1 ) );
            if ( f == w.archives.end( ) || !f->second ) return "none";
            std::string r;
            {
                Armed a;
                r = f->second->describe( );
            }
            for ( auto& ch : r )
                if ( ch == '\n' ) ch = '|';
            return "text " + r;
        }
        if ( c == "ax" ) { auto x = w.archives.extract( I( 1 ) ); Armed a; { auto y = std::move( x ); } return "ok"; }
#ifdef DRV_VIEWS
        // ---- copies of archives, and what a user holds of them
        if ( c == "as" || c == "acl" || c == "amv" || c == "aas" )     // new from (resource)
        {
            auto f = w.archives.find( I( 2 ) );
            if ( f == w.archives.end( ) || !f->second ) return "none";
            Armed a;
            if ( c == "aas" )
            {
                auto g = w.archives.find( I( 1 ) );
                if ( g == w.archives.end( ) || !g->second ) return "none";
                return g->second->assign( *f->second ) ? ( g->second->open( ) ? "open" : "closed" ) : "other";
            }
            auto x = c == "as" ? f->second->sub( I( 3 ) ) : c == "acl" ? f->second->clone( ) : f->second->move( );
            if ( !x ) return "absent";
            bool ok = x->open( );
            w.archives[ I( 1 ) ] = std::move( x );
            return ok ? "open" : "closed";
        }
        if ( c == "vk" )
        {
            auto f = w.archives.find( I( 2 ) );
            if ( f == w.archives.end( ) || !f->second ) return "none";
            Armed a;
            auto x = f->second->keep( I( 3 ) );
            if ( !x ) return "absent";
            w.kept[ I( 1 ) ] = std::move( x );
            return "ok";
        }
        if ( c == "vd" || c == "ik" )
        {
            auto f = w.kept.find( I( 2 ) );
            if ( f == w.kept.end( ) || !f->second ) return "none";
            Armed a;
            if ( c == "vd" )
            {
                auto x = f->second->derive( t );
                if ( !x ) return "none";
                w.kept[ I( 1 ) ] = std::move( x );
            }
            else
            {
                auto x = f->second->cursor( t );
                if ( !x ) return "none";
                w.cursors[ I( 1 ) ] = std::move( x );
            }
            return "ok";
        }
        if ( c == "vl" )
        {
            auto f = w.kept.find( I( 1 ) );
            if ( f == w.kept.end( ) || !f->second ) return "none";
            return f->second->look( t );
        }
        if ( c == "icp" || c == "ip" || c == "il" || c == "ic" )
        {
            auto f = w.cursors.find( I( c == "icp" ? 2 : 1 ) );
            if ( f == w.cursors.end( ) || !f->second ) return "none";
            if ( c == "icp" )
            {
                auto x = f->second->clone( );
                w.cursors[ I( 1 ) ] = std::move( x );
                return "ok";
            }
            if ( c == "ip" ) return f->second->step( t.at( 2 ), stok( t, 3 ) );
            if ( c == "il" ) return f->second->look( t.at( 2 ), stok( t, 3 ) );
            auto g = w.cursors.find( I( 2 ) );
            return g == w.cursors.end( ) || !g->second ? "none" : f->second->compare( *g->second );
        }
#endif
        // ---- allocation faults
        if ( c == "af" )
        {
            g_alloc_count = 0;
            g_alloc_fail = L( 1 );
            g_alloc_len = L( 2 );
            g_alloc_failed = 0;
            return "ok";
        }
        if ( c == "ac" )
        {
            o << "allocs " << g_alloc_count << " failed " << g_alloc_failed;
            g_alloc_count = 0;
            g_alloc_fail = -1;
            return o.str( );
        }
        // ---- what others do to the disk
        if ( c == "ul" ) { syscall( SYS_unlinkat, AT_FDCWD, t.at( 1 ).c_str( ), 0 ); return "ok"; }
        if ( c == "rn" ) { syscall( SYS_renameat, AT_FDCWD, t.at( 1 ).c_str( ), AT_FDCWD, t.at( 2 ).c_str( ) ); return "ok"; }
        if ( c == "wf" ) { raw_write_file( t.at( 1 ), t.size( ) > 2 ? value( t[ 2 ] ).raw : "" ); return "ok"; }
        if ( c == "mkd" ) { syscall( SYS_mkdirat, AT_FDCWD, t.at( 1 ).c_str( ), 0777 ); return "ok"; }
        return "unknown-command " + c;
    }

    std::string
    run( const std::string& line )
    {
        auto t = split( line, ' ' );
        if ( t.empty( ) ) return "empty";
        std::string what;
        try
        {
            return command( t );
        }
        catch ( const std::bad_alloc& )
        {
            g_armed = false;
            return "exc bad_alloc";
        }
        catch ( const std::out_of_range& e )
        {
            g_armed = false;
            return std::string( "exc out_of_range " ) + e.what( );
        }
        catch ( const std::exception& e )
        {
            g_armed = false;
            what = e.what( );
        }
        catch ( ... )
        {
            g_armed = false;
            return "exc unknown";
        }
        for ( auto& ch : what )
            if ( ch == '\n' ) ch = ' ';
        return "exc " + what;
    }
};
}  // namespace drv

static void
put( const std::string& s )
{
    size_t o = 0;
    while ( o < s.size( ) )
    {
        long k = syscall( SYS_write, 1, s.data( ) + o, s.size( ) - o );
        if ( k <= 0 ) _exit( 3 );
        o += k;
    }
}

#ifdef SIM_THREADS
struct Task
{
    drv::Interp* in;
    std::vector< std::pair< size_t, std::string > > cmds;
    std::vector< std::string >* out;
};
static void*
thread_body( void* p )
{
    Task* t = static_cast< Task* >( p );
    for ( auto& c : t->cmds ) ( *t->out )[ c.first ] = "H" + std::to_string( sim_kind( 1 ) + sim_kind( 4 ) + sim_kind( 16 ) ) + " " + t->in->run( c.second );
    return nullptr;
}
/// lines "T<k> command" run in parallel, the ones before and after them in one thread
static void
run_lines( drv::Interp& in, const std::vector< std::string >& lines )
{
    std::vector< std::string > out( lines.size( ) );
    size_t i = 0;
    auto seq = [ & ] { for ( ; i < lines.size( ) && lines[ i ][ 0 ] != 'T'; i++ )
        {
            auto t = drv::split( lines[ i ], ' ' );
            if ( t[ 0 ] == "Z" ) thr_schedule( atoi( t[ 1 ].c_str( ) ), drv::num( t[ 2 ] ), drv::num( t[ 3 ] ), drv::num( t[ 4 ] ), atoi( t[ 5 ].c_str( ) ), drv::num( t[ 6 ] ) );
            else if ( t[ 0 ] == "PLAN" )
            {
                std::vector< uint64_t > p;
                for ( size_t k = 1; k < t.size( ); k++ )
                {
                    auto x = drv::split( t[ k ], ':' );
                    p.push_back( drv::num( x[ 0 ] ) );
                    p.push_back( drv::num( x.at( 1 ) ) );
                }
                thr_plan( p.data( ), p.size( ) / 2 );
            }
            else
            {
                put( "H" + std::to_string( sim_kind( 1 ) + sim_kind( 4 ) + sim_kind( 16 ) ) + " " + in.run( lines[ i ] ) + "\n" );
                continue;
            }
            put( "H0 ok\n" );
        } };
    seq( );
    if ( i < lines.size( ) )
    {
        std::vector< Task > tasks( 6 );
        size_t from = i, n = 0;
        for ( ; i < lines.size( ) && lines[ i ][ 0 ] == 'T'; i++ )
        {
            size_t k = lines[ i ][ 1 ] - '0';
            n = std::max( n, k + 1 );
            tasks.at( k ).cmds.emplace_back( i, lines[ i ].substr( 3 ) );
        }
        void* args[ 6 ];
        for ( size_t k = 0; k < n; k++ )
        {
            tasks[ k ].in = &in;
            tasks[ k ].out = &out;
            args[ k ] = &tasks[ k ];
        }
        put( "@parallel\n" );
        thr_parallel( n, thread_body, args );
        put( "@joined\n" );
        thr_report( );
        uint64_t st[ 6 ];
        thr_stats( st );
        put( "@thr " + std::to_string( st[ 2 ] ) + " " + std::to_string( st[ 3 ] ) + " " + std::to_string( st[ 4 ] ) + "\n" );
        for ( ; from < i; from++ ) put( out[ from ] + "\n" );
    }
    seq( );
}
#endif

int
main( int argc, char** argv )
{
    drv::crc_init( );
    std::ios::sync_with_stdio( false );
    std::string line;
    int timeout = argc > 1 ? atoi( argv[ 1 ] ) : 60;
#ifdef SIM_THREADS
    {
        cpu_set_t all, one;
        CPU_ZERO( &one );
        if ( sched_getaffinity( 0, sizeof all, &all ) == 0 )
        {
            int want = argc > 2 ? atoi( argv[ 2 ] ) : 0, n = CPU_COUNT( &all );
            for ( int c = 0, k = 0; c < CPU_SETSIZE; c++ )
                if ( CPU_ISSET( c, &all ) && k++ == want % n ) CPU_SET( c, &one );
            sched_setaffinity( 0, sizeof one, &one );
        }
    }
#endif
    while ( std::getline( std::cin, line ) )
    {
        if ( line.compare( 0, 4, "RUN " ) != 0 ) continue;
        int n = atoi( line.c_str( ) + 4 );
        std::vector< std::string > lines( n );
        for ( auto& l : lines ) std::getline( std::cin, l );
        pid_t pid = fork( );
        if ( pid == 0 )
        {
            alarm( timeout );
#ifdef SIM_THREADS
            thr_arena( );
            {
                drv::Interp in;
                run_lines( in, lines );
                put( "@destroy\n" );
            }
#ifdef DEBUG_DATA_ACCESS_STATISTICS
            put( "@stats\n" );
            dup2( 1, 2 );
            exit( 0 );
#else
            put( "@done\n" );
            _exit( 0 );
#endif
#else
            {
                drv::Interp in;
                for ( auto& l : lines )
                {
                    int before = sim_frozen( 0 );
                    std::string r = in.run( l );
                    if ( sim_frozen( 0 ) && !before ) r = "-";    // the process stopped inside this command
                    put( "H" + std::to_string( sim_kind( 1 ) + sim_kind( 4 ) + sim_kind( 16 ) + g_storage_faults + g_alloc_failed_total ) + " " + r + "\n" );
                }
                put( "@destroy\n" );
                g_alloc_fail = -1;
            }
            put( "@done\n" );
            _exit( 0 );
#endif
        }
        int st = 0;
        waitpid( pid, &st, 0 );
        std::ostringstream o;
        o << "END " << ( WIFSIGNALED( st ) ? 1000 + WTERMSIG( st ) : WEXITSTATUS( st ) ) << "\n";
        put( o.str( ) );
    }
    return 0;
}
