#include "pbt.h"
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <fstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <time.h>

static const size_t MAXREC = 1u << 19;
static const size_t MSGSZ = 16384;

struct Shared
{
    volatile size_t nrec;
    volatile long curCase;      // case being executed
    volatile long doneCases;
    volatile int  state;        // 0 running case, 1 passed, 2 failed (msg set)
    char msg[MSGSZ];
    char desc[MSGSZ];
    uint32_t rec[MAXREC];
};

std::vector<Property>& registry() { static std::vector<Property> r; return r; }

static uint64_t mix( uint64_t x )
{
    x += 0x9E3779B97F4A7C15ULL;
    x = ( x ^ ( x >> 30 ) ) * 0xBF58476D1CE4E5B9ULL;
    x = ( x ^ ( x >> 27 ) ) * 0x94D049BB133111EBULL;
    return x ^ ( x >> 31 );
}

Src::Src( uint64_t seed, Shared* s ) : replay( false ), pos( 0 ), st( seed ), h( 1469598103934665603ULL ), sh( s ) { sh->nrec = 0; }
Src::Src( const std::vector<uint32_t>& c, Shared* s ) : replay( true ), in( c ), pos( 0 ), st( 0 ), h( 1469598103934665603ULL ), sh( s ) { sh->nrec = 0; }
Src::Src( const std::vector<uint32_t>& c ) : replay( true ), in( c ), pos( 0 ), st( 0 ), h( 1469598103934665603ULL ), sh( NULL ) {}
size_t Src::recorded() const { return sh ? sh->nrec : pos; }
std::vector<uint32_t> Src::since( size_t from ) const { return std::vector<uint32_t>( sh->rec + from, sh->rec + sh->nrec ); }
uint64_t Src::next() { st += 0x9E3779B97F4A7C15ULL; return mix( st ); }
size_t Src::used() const { return pos; }

uint32_t Src::draw( uint32_t n )
{
    if( n == 0 ) n = 1;
    uint32_t v;
    if( replay )
        v = pos < in.size() ? ( wild ? in[pos] % n : in[pos] < n ? in[pos] : n - 1 ) : wild && n > 1 ? (uint32_t)( ( ( next() >> 32 ) * (uint64_t)n ) >> 32 ) : 0;
    else
        v = n == 1 ? 0 : (uint32_t)( ( ( next() >> 32 ) * (uint64_t)n ) >> 32 );
    ++pos;
    size_t k = sh ? sh->nrec : MAXREC;
    if( k < MAXREC ) { sh->rec[k] = v; sh->nrec = k + 1; }
    h = ( h ^ v ) * 1099511628211ULL;
    return v;
}

size_t Src::weighted( const std::vector<int>& w )
{
    int tot = 0;
    for( int x : w ) tot += x;
    int v = (int)draw( tot );
    for( size_t i = 0; i < w.size(); ++i ) { if( v < w[i] ) return i; v -= w[i]; }
    return 0;
}

double Src::real( double lim )
{
    switch( draw( 8 ) )
    {
    case 0: return (double)range( 0, 10 ) <= lim ? (double)range( 0, 10 ) : lim;
    case 1: { double v = range( 0, 2000 ) * 0.5 - 500.0; return std::fabs( v ) > lim ? lim : v; }
    case 2: { double v = range( 0, 2000000 ) * 1e-3 - 1000.0; return std::fabs( v ) > lim ? -lim : v; }
    case 3: return ( range( 0, 2000000 ) * 1e-6 - 1.0 ) * std::min( lim, 1.0 );
    case 4: return 0.0;
    case 5: return ( draw( 0x7fffffff ) / 1073741823.5 - 1.0 ) * lim;
    case 6: { double m = draw( 1000000 ) / 1e6; int e = range( -6, 6 ); double v = m * pow( 10.0, e ); if( flip() ) v = -v; return std::fabs( v ) > lim ? m * lim : v; }
    default: return ( draw( 0x7fffffff ) / 1073741823.5 - 1.0 ) * std::min( lim, 100.0 );
    }
}

double Src::grid( double lo, double hi, double q )
{
    long n = (long)floor( ( hi - lo ) / q + 1e-9 );
    return lo + draw( (uint32_t)( n + 1 ) ) * q;
}

std::string readFile( const std::string& p )
{
    std::ifstream f( p.c_str(), std::ios::binary );
    std::ostringstream o; o << f.rdbuf();
    return o.str();
}
void writeFile( const std::string& p, const std::string& s )
{
    std::ofstream f( p.c_str(), std::ios::binary | std::ios::trunc );
    f << s;
    f.close();
    if( f.fail() ) throw std::runtime_error( "harness: cannot write " + p );
}
std::string strf( const char* fmt, ... )
{
    char b[4096]; va_list a; va_start( a, fmt ); vsnprintf( b, sizeof b, fmt, a ); va_end( a ); return b;
}

static std::string jesc( const std::string& s )
{
    std::string o;
    for( unsigned char c : s )
    {
        if( c == '"' || c == '\\' ) { o += '\\'; o += (char)c; }
        else if( c == '\n' ) o += "\\n";
        else if( c < 32 || c > 126 ) o += strf( "\\u%04x", c );
        else o += (char)c;
    }
    return o;
}

static double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string g_root;      // scratch root
static bool g_keepErr = false;
static std::string g_tier = "quick";
static int CASE_CPU_S = 20;

static void rmTree( const std::string& d )
{
    // only ever called for directories below the scratch root made by this process
    if( d.compare( 0, g_root.size(), g_root ) != 0 || g_root.size() < 8 ) return;
    DIR* dp = opendir( d.c_str() );
    if( !dp ) return;
    while( struct dirent* e = readdir( dp ) )
    {
        std::string n = e->d_name;
        if( n == "." || n == ".." ) continue;
        std::string p = d + "/" + n;
        struct stat st;
        if( lstat( p.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) ) { chmod( p.c_str(), 0700 ); rmTree( p ); }
        else unlink( p.c_str() );
    }
    closedir( dp );
    rmdir( d.c_str() );
}

static void setupChild( const std::string& scratch, int errfd )
{
    mkdir( scratch.c_str(), 0700 );
    if( errfd >= 0 ) { dup2( errfd, 2 ); dup2( errfd, 1 ); }
    struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit( RLIMIT_CORE, &r );
    r.rlim_cur = r.rlim_max = 512u << 20; setrlimit( RLIMIT_FSIZE, &r );
    signal( SIGXFSZ, SIG_IGN );
}

static void armTimer( int s )
{
    struct itimerval it; memset( &it, 0, sizeof it ); it.it_value.tv_sec = s;
    setitimer( ITIMER_PROF, &it, NULL );
}

// on death by sanitizer or timeout, say what the case was
extern "C" void __sanitizer_set_death_callback( void (*)( void ) );
static Ctx* g_ctx = NULL; static Shared* g_sh = NULL;
extern "C" void __sanitizer_print_stack_trace();
static void onDeath() { if( g_ctx && g_sh ) strncpy( g_sh->desc, g_ctx->desc.c_str(), MSGSZ - 1 ); }

static void onTimeout( int )
{
    signal( SIGPROF, SIG_DFL ); signal( SIGALRM, SIG_DFL ); alarm( 5 );     // in case the stack cannot be printed
    onDeath();
    static const char M[] = "\n==ERROR: AddressSanitizer: (not an address error) no answer, interrupted at\n";
    if( write( 2, M, sizeof M - 1 ) < 0 ) {}
    __sanitizer_print_stack_trace();
    raise( SIGPROF );
}

static bool runOne( const Property& p, Src& s, Ctx& c, Shared* sh )
{
    g_ctx = &c; g_sh = sh; __sanitizer_set_death_callback( onDeath );
    c.nontrivial = false; c.desc.clear(); c.labels.clear(); c.known.clear();
    sh->state = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    std::string msg;
    bool ok = true;
    signal( SIGPROF, onTimeout );
    armTimer( CASE_CPU_S );
    try { p.run( s, c ); }
    catch( const Failure& f ) { ok = false; msg = f.what(); }
    catch( const std::exception& e ) { ok = false; msg = std::string( "uncaught exception: " ) + e.what(); }
    armTimer( 0 );
    strncpy( sh->desc, c.desc.c_str(), MSGSZ - 1 );
    if( !ok ) { strncpy( sh->msg, msg.c_str(), MSGSZ - 1 ); sh->state = 2; }
    else sh->state = 1;
    return ok;
}

static uint64_t caseSeed( uint64_t seed, const Property& p, long i )
{
    uint64_t h = mix( seed * 7919 + 17 );
    for( char ch : p.id + "/" + p.sub ) h = mix( h ^ (unsigned char)ch );
    return mix( h + (uint64_t)i * 0x1000193 );
}

static std::string errTail( const std::string& f )
{
    std::string t = readFile( f );
    size_t a = t.find( "ERROR: AddressSanitizer" );
    if( a == std::string::npos ) a = t.find( "runtime error:" );
    if( a != std::string::npos ) { a = t.rfind( '\n', a ); t = t.substr( a == std::string::npos ? 0 : a ); return t.substr( 0, 2500 ); }
    return t.size() > 1500 ? t.substr( t.size() - 1500 ) : t;
}

static std::string statusStr( int st )
{
    if( WIFSIGNALED( st ) )
    {
        if( WTERMSIG( st ) == SIGPROF || WTERMSIG( st ) == SIGALRM ) return strf( "no answer within %d s of CPU time", CASE_CPU_S );
        return strf( "killed by signal %d", WTERMSIG( st ) );
    }
    return strf( "process exit code %d (sanitizer or exit() in the library)", WEXITSTATUS( st ) );
}

struct Outcome { bool fail; std::string msg, desc; std::vector<uint32_t> rec; };

// run one choice sequence (or random case) in a child of its own
static Outcome runIsolated( const Property& p, const std::vector<uint32_t>* choices, uint64_t seed, Shared* sh )
{
    Outcome o; o.fail = false;
    std::string ef = g_root + "/iso.err";
    sh->nrec = 0; sh->state = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    pid_t pid = fork();
    if( pid == 0 )
    {
        int fd = open( ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
        std::string scr = g_root + "/iso";
        setupChild( scr, g_keepErr ? -1 : fd );
        Ctx c; c.prop = p.id; c.scratch = scr; c.tier = g_tier; c.thorough = g_tier == "thorough"; c.verbose = g_keepErr;
        if( choices ) { Src s( *choices, sh ); runOne( p, s, c, sh ); }
        else { Src s( seed, sh ); runOne( p, s, c, sh ); }
        _exit( 0 );
    }
    int st = 0;
    while( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
    rmTree( g_root + "/iso" );
    o.desc = sh->desc;
    o.rec.assign( sh->rec, sh->rec + sh->nrec );
    if( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) { o.fail = true; o.msg = "CRASH: " + statusStr( st ) + "\n" + errTail( ef ); }
    else if( sh->state == 2 ) { o.fail = true; o.msg = sh->msg; }
    return o;
}

static Outcome shrink( const Property& p, Outcome best, Shared* sh, double budget )
{
    double t0 = now();
    bool progress = true;
    auto tryit = [&]( const std::vector<uint32_t>& c ) -> bool {
        Outcome o = runIsolated( p, &c, 0, sh );
        if( !o.fail ) return false;
        bool better = o.rec.size() < best.rec.size() || ( o.rec.size() == best.rec.size() && o.rec < best.rec );
        if( !better ) return false;
        best = o;
        return true;
    };
    while( progress && now() - t0 < budget )
    {
        progress = false;
        for( size_t blk = std::max<size_t>( 1, best.rec.size() / 2 ); blk >= 1; blk /= 2 )
        {
            for( size_t i = 0; i + blk <= best.rec.size() && now() - t0 < budget; )
            {
                std::vector<uint32_t> c = best.rec;
                c.erase( c.begin() + i, c.begin() + i + blk );
                if( tryit( c ) ) progress = true; else i += blk;
            }
            if( blk == 1 ) break;
        }
        for( size_t blk = 16; blk >= 1; blk /= 2 )
        {
            for( size_t i = 0; i < best.rec.size() && now() - t0 < budget; i += blk )
            {
                std::vector<uint32_t> c = best.rec;
                bool any = false;
                for( size_t j = i; j < std::min( i + blk, c.size() ); ++j ) { if( c[j] ) any = true; c[j] = 0; }
                if( any && tryit( c ) ) progress = true;
            }
            if( blk == 1 ) break;
        }
        for( size_t i = 0; i < best.rec.size() && now() - t0 < budget; ++i )
        {
            uint32_t lo = 0, hi = best.rec[i];
            if( hi == 0 ) continue;
            for( int k = 0; k < 20 && lo + 1 < hi && i < best.rec.size() && now() - t0 < budget; ++k )
            {
                std::vector<uint32_t> c = best.rec;
                uint32_t mid = lo + ( hi - lo ) / 2;
                c[i] = mid;
                if( tryit( c ) ) { progress = true; if( i >= best.rec.size() ) break; hi = best.rec[i]; }
                else lo = mid;
            }
            if( i < best.rec.size() && best.rec[i] > 0 )
            {
                std::vector<uint32_t> c = best.rec; c[i]--;
                if( tryit( c ) ) progress = true;
            }
        }
    }
    return best;
}

struct Totals
{
    long evals = 0, nontriv = 0, bad = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::set<std::string> known;
};

static void writeAll( int fd, const std::string& s )
{
    size_t k = 0;
    while( k < s.size() ) { ssize_t n = write( fd, s.data() + k, s.size() - k ); if( n < 0 ) { if( errno == EINTR ) continue; return; } k += n; }
}

// worker: executes cases first, first+stride, ... ; results are flushed in batches to a file
static void worker( const Property& p, uint64_t seed, long first, long stride, long count, Shared* sh,
                    const std::string& scr, const std::string& outf, double deadline )
{
    int fd = open( ( scr + ".err" ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    setupChild( scr, fd );
    int ofd = open( outf.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600 );
    Ctx c; c.prop = p.id; c.scratch = scr; c.tier = g_tier; c.thorough = g_tier == "thorough";
    std::string buf;
    int nsamp = 0;
    for( long i = first; i < count; i += stride )
    {
        if( now() > deadline ) break;
        sh->curCase = i;
        Src s( caseSeed( seed, p, i ), sh );
        bool ok = runOne( p, s, c, sh );
        lseek( fd, 0, SEEK_SET ); if( ftruncate( fd, 0 ) ) {}
        buf += strf( "C %ld %d %d %llx\n", i, ok ? 1 : 0, c.nontrivial ? 1 : 0, (unsigned long long)s.hash() );
        for( auto& l : c.labels ) buf += strf( "L %ld ", l.second ) + l.first + "\n";
        for( auto& k : c.known ) buf += "K " + k + "\n";
        if( c.nontrivial && nsamp < 2 && i > 3 )
        {
            ++nsamp; std::string d = c.desc.substr( 0, 900 );
            for( auto& ch : d ) if( ch == '\n' ) ch = '\x1e';
            buf += "S " + d + "\n";
        }
        if( buf.size() > 8192 || !ok ) { writeAll( ofd, buf ); buf.clear(); }
        if( !ok ) { close( ofd ); _exit( 77 ); }
    }
    writeAll( ofd, buf );
    close( ofd );
    sh->curCase = -1;
    _exit( 0 );
}

// --- coverage-guided search over choice sequences. The library is compiled with counters per basic block edge;
// a sequence which reaches a new (edge, order of magnitude of the count) joins the corpus and is mutated further.
static uint8_t *g_cov0 = NULL, *g_cov1 = NULL;
extern "C" void __sanitizer_cov_8bit_counters_init( char* a, char* b ) { if( b - a > g_cov1 - g_cov0 ) { g_cov0 = (uint8_t*)a; g_cov1 = (uint8_t*)b; } }

struct Guide
{
    uint8_t* seen;              // shared by the workers: bits of the magnitudes reached per edge
    volatile long *corpus, *features;
    std::vector<std::vector<uint32_t> > pool;
    std::map<std::string, int> taken;
    uint64_t st;
    std::string dir; int id, made = 0;
    uint64_t rnd() { st += 0x9E3779B97F4A7C15ULL; return mix( st ); }
    uint32_t rnd( uint32_t n ) { return n ? (uint32_t)( rnd() % n ) : 0; }
    static int cls( uint8_t v ) { return v < 4 ? v - 1 : v < 8 ? 3 : v < 16 ? 4 : v < 32 ? 5 : v < 128 ? 6 : 7; }
    bool novel()
    {
        size_t n = g_cov1 - g_cov0; bool any = false;
        for( size_t i = 0; i < n; ++i ) if( g_cov0[i] )
        {
            uint8_t b = 1 << cls( g_cov0[i] );
            if( !( seen[i] & b ) ) { if( !( __atomic_fetch_or( seen + i, b, __ATOMIC_RELAXED ) & b ) ) { any = true; __atomic_fetch_add( features, 1, __ATOMIC_RELAXED ); } }
        }
        return any;
    }
    void keep( const std::vector<uint32_t>& v )
    {
        if( v.size() > 60000 ) return;
        pool.push_back( v ); __atomic_fetch_add( corpus, 1, __ATOMIC_RELAXED );
        std::string f = dir + strf( "/%d-%d", id, made++ ), t = f + ".t";
        std::ofstream o( t.c_str(), std::ios::binary ); o.write( (const char*)v.data(), v.size() * 4 ); o.close(); rename( t.c_str(), f.c_str() );
    }
    void import( int jobs )
    {
        for( int k = 0; k < jobs; ++k )
        {
            if( k == id ) continue;
            int& n = taken[strf( "%d", k )];
            for( ;; ++n )
            {
                std::string t = readFile( dir + strf( "/%d-%d", k, n ) ); if( t.size() < 4 ) break;
                std::vector<uint32_t> v( t.size() / 4 ); memcpy( v.data(), t.data(), v.size() * 4 ); pool.push_back( v );
            }
        }
    }
    std::vector<uint32_t> mutant()
    {
        // late entries are the ones which were hard to reach
        size_t a = rnd( 2 ) ? pool.size() - 1 - rnd( (uint32_t)std::min<size_t>( pool.size(), 40 ) ) : rnd( (uint32_t)pool.size() );
        std::vector<uint32_t> v = pool[a];
        int n = 1 + rnd( rnd( 3 ) ? 4 : 16 );
        for( int k = 0; k < n; ++k )
        {
            size_t L = v.size(), p = L ? rnd( (uint32_t)L ) : 0, b = L ? 1 + rnd( (uint32_t)std::min<size_t>( L - p, 1u << rnd( 7 ) ) ) : 0;
            switch( rnd( 10 ) )
            {
            case 0: case 1: case 2: if( L ) v[p] = rnd( 3 ) ? (uint32_t)rnd() : rnd( 16 ); break;
            case 3: if( L ) v[p] += rnd( 2 ) ? 1 : v[p] ? -1 : 0; break;
            case 4: if( L ) v.erase( v.begin() + p, v.begin() + p + b ); break;
            case 5: { std::vector<uint32_t> x( 1 + rnd( 16 ) ); for( auto& q : x ) q = (uint32_t)rnd(); v.insert( v.begin() + p, x.begin(), x.end() ); break; }
            case 6: if( L ) { std::vector<uint32_t> x( v.begin() + p, v.begin() + p + b ); v.insert( v.begin() + rnd( (uint32_t)L ), x.begin(), x.end() ); } break;
            case 7: { const std::vector<uint32_t>& w = pool[rnd( (uint32_t)pool.size() )]; if( w.empty() ) break; size_t q = rnd( (uint32_t)w.size() ), m = 1 + rnd( (uint32_t)std::min<size_t>( w.size() - q, 64 ) ); std::vector<uint32_t> x( w.begin() + q, w.begin() + q + m ); if( rnd( 2 ) ) v.insert( v.begin() + p, x.begin(), x.end() ); else for( size_t i = 0; i < m && p + i < v.size(); ++i ) v[p + i] = x[i]; break; }
            case 8: { const std::vector<uint32_t>& w = pool[rnd( (uint32_t)pool.size() )]; size_t q = w.empty() ? 0 : rnd( (uint32_t)w.size() ); v.resize( p ); v.insert( v.end(), w.begin() + q, w.end() ); break; }
            default: if( L && !rnd( 3 ) ) v.resize( p ); break;     // the rest is drawn afresh
            }
            if( v.size() > 100000 ) v.resize( 100000 );
        }
        return v;
    }
};

static void guidedWorker( const Property& p, uint64_t seed, int id, int jobs, Shared* sh, const std::string& scr, const std::string& outf,
                          double deadline, uint8_t* seen, long* shared, const std::string& dir, int round )
{
    int fd = open( ( scr + ".err" ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    setupChild( scr, fd );
    int ofd = open( outf.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600 );
    Ctx c; c.prop = p.id; c.scratch = scr; c.tier = g_tier; c.thorough = g_tier == "thorough";
    Guide g; g.seen = seen; g.corpus = shared; g.features = shared + 1; g.dir = dir; g.id = id + jobs * round; g.st = mix( seed + 977 * id + 7919 * round ) ^ mix( std::hash<std::string>()( p.id + p.sub ) );
    std::string buf; size_t n = g_cov1 - g_cov0; uint64_t fresh = g.rnd();
    for( long i = 0; now() < deadline; ++i )
    {
        sh->curCase = i;
        if( i % 256 == 0 ) g.import( jobs * ( round + 1 ) );
        bool mut = !g.pool.empty() && ( i > 300 || g.rnd( 2 ) ) && g.rnd( 20 );
        Src s = mut ? Src( g.mutant(), sh ) : Src( fresh + i, sh ); if( mut ) s.guided( g.rnd() );
        memset( g_cov0, 0, n );
        bool ok = runOne( p, s, c, sh );
        if( ok && g.novel() && sh->nrec < MAXREC ) g.keep( std::vector<uint32_t>( sh->rec, sh->rec + sh->nrec ) );
        lseek( fd, 0, SEEK_SET ); if( ftruncate( fd, 0 ) ) {}
        buf += strf( "C %ld %d %d %llx\n", i, ok ? 1 : 0, c.nontrivial ? 1 : 0, (unsigned long long)s.hash() );
        for( auto& l : c.labels ) buf += strf( "L %ld ", l.second ) + l.first + "\n";
        for( auto& k : c.known ) buf += "K " + k + "\n";
        if( buf.size() > 8192 || !ok ) { writeAll( ofd, buf ); buf.clear(); }
        if( !ok ) { close( ofd ); _exit( 77 ); }
    }
    writeAll( ofd, buf );
    close( ofd );
    _exit( 0 );
}

static void collect( const std::string& f, Totals& t )
{
    std::ifstream in( f.c_str() );
    std::string l;
    while( std::getline( in, l ) )
    {
        if( l.size() < 2 ) continue;
        if( l[0] == 'C' )
        {
            long i; int ok, nt; unsigned long long h;
            if( sscanf( l.c_str(), "C %ld %d %d %llx", &i, &ok, &nt, &h ) == 4 ) { ++t.evals; if( nt ) { ++t.nontriv; t.distinct.insert( h ); } }
        }
        else if( l[0] == 'L' )
        {
            char* e; long n = strtol( l.c_str() + 2, &e, 10 ); t.labels[e + 1] += n;
        }
        else if( l[0] == 'K' ) t.known.insert( l.substr( 2 ) );
        else if( l[0] == 'S' ) { std::string d = l.substr( 2 ); for( auto& ch : d ) if( ch == '\x1e' ) ch = '\n'; if( t.samples.size() < 4 ) t.samples.push_back( d ); }
    }
    in.close();
    unlink( f.c_str() );
}

static Shared* newShared()
{
    void* m = mmap( NULL, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    if( m == MAP_FAILED ) { perror( "mmap" ); exit( 3 ); }
    return (Shared*)m;
}

static void saveReplay( const std::string& path, const Property& p, const Outcome& o, uint64_t seed )
{
    std::ostringstream s;
    s << "property " << p.id << "\nsub " << p.sub << "\nseed " << seed << "\nchoices";
    for( uint32_t v : o.rec ) s << " " << v;
    s << "\n--- message\n" << o.msg << "\n--- case\n" << o.desc << "\n";
    writeFile( path, s.str() );
}

int main( int argc, char** argv )
{
    std::string prop, evid, replay, repdir = ".", only;
    uint64_t seed = 1; int jobs = 8; double tmax = 300; double scale = 1.0; long single = -1; bool list = false; bool noshrink = false, survey = false; double guided = -1;
    for( int i = 1; i < argc; ++i )
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if( a == "--tier" ) g_tier = val();
        else if( a == "--seed" ) seed = strtoull( val().c_str(), NULL, 10 );
        else if( a == "--jobs" ) jobs = atoi( val().c_str() );
        else if( a == "--max-time" ) tmax = atof( val().c_str() );
        else if( a == "--scale" ) scale = atof( val().c_str() );
        else if( a == "--evidence" ) evid = val();
        else if( a == "--replay-dir" ) repdir = val();
        else if( a == "--replay" ) replay = val();
        else if( a == "--case" ) single = atol( val().c_str() );
        else if( a == "--sub" ) only = val();
        else if( a == "--err" ) g_keepErr = true;
        else if( a == "--noshrink" ) noshrink = true;
        else if( a == "--survey" ) survey = true;
        else if( a == "--guided" ) guided = atof( val().c_str() );      // share of the time for the guided search
        else if( a == "--list" ) list = true;
        else prop = a;
    }
    if( list ) { for( auto& p : registry() ) printf( "%s %s q=%ld t=%ld\n", p.id.c_str(), p.sub.c_str(), p.quickCases, p.thoroughCases ); return 0; }
    const char* base = access( "/dev/shm", W_OK ) == 0 ? "/dev/shm" : "/tmp";
    std::string tpl = std::string( base ) + "/pbtXXXXXX";
    std::vector<char> tb( tpl.begin(), tpl.end() ); tb.push_back( 0 );
    if( !mkdtemp( tb.data() ) ) { perror( "mkdtemp" ); return 3; }
    g_root = tb.data();
    Shared* iso = newShared();
    double T0 = now();

    if( !replay.empty() )
    {
        std::ifstream in( replay.c_str() ); std::string l, id, sub; std::vector<uint32_t> ch;
        while( std::getline( in, l ) )
        {
            if( l.compare( 0, 9, "property " ) == 0 ) id = l.substr( 9 );
            else if( l.compare( 0, 4, "sub " ) == 0 ) sub = l.substr( 4 );
            else if( l.compare( 0, 7, "choices" ) == 0 ) { std::istringstream s( l.substr( 7 ) ); uint32_t v; while( s >> v ) ch.push_back( v ); break; }
        }
        int rc = 3;
        for( auto& p : registry() ) if( p.id == id && p.sub == sub )
        {
            Outcome o = runIsolated( p, &ch, 0, iso );
            printf( "%s %s/%s\n%s\n--- case\n%s\n", o.fail ? "FAIL" : "PASS", id.c_str(), sub.c_str(), o.msg.c_str(), o.desc.c_str() );
            rc = o.fail ? 1 : 0;
        }
        rmTree( g_root ); return rc;
    }

    std::vector<Property*> props;
    for( auto& p : registry() ) if( p.id == prop && ( only.empty() || p.sub == only ) ) props.push_back( &p );
    if( props.empty() ) { fprintf( stderr, "no such property %s\n", prop.c_str() ); rmTree( g_root ); return 3; }
    if( single >= 0 )
    {
        Outcome o = runIsolated( *props[0], NULL, caseSeed( seed, *props[0], single ), iso );
        printf( "%s\n%s\n--- case\n%s\n", o.fail ? "FAIL" : "PASS", o.msg.c_str(), o.desc.c_str() );
        rmTree( g_root ); return o.fail;
    }

    int violations = 0;
    Totals all; std::string rule; std::map<std::string, std::vector<long>> perSub; std::map<std::string, std::pair<long, long>> gcorpus;
    std::set<std::string> known;
    std::vector<Shared*> shs; for( int j = 0; j < jobs; ++j ) shs.push_back( newShared() );
    if( guided < 0 ) guided = g_tier == "thorough" ? 0.5 : 0;
    if( !g_cov0 ) guided = 0;
    double share = tmax / props.size();
    uint8_t* seen = NULL; long* fstat = NULL;
    if( guided > 0 )
    {
        seen = (uint8_t*)mmap( NULL, g_cov1 - g_cov0 + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        fstat = (long*)mmap( NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        if( seen == MAP_FAILED || fstat == MAP_FAILED ) { perror( "mmap" ); return 3; }
    }
    for( Property* pp : props )
    {
        const Property& p = *pp;
        long count = (long)( ( g_tier == "thorough" ? p.thoroughCases : p.quickCases ) * scale );
        if( count < 1 ) count = 1;
        double t0 = now(), deadline = t0 + share * ( 1 - guided );
        std::vector<pid_t> pid( jobs, 0 ); std::vector<long> nextFirst( jobs );
        Totals t; std::vector<std::pair<long, std::string>> fails;
        int alive = 0, phase = 0; std::vector<int> round( jobs, 0 );
        auto launch = [&]( int j, long first ) {
            shs[j]->curCase = -1;
            pid_t q = fork();
            if( q == 0 && phase == 1 ) guidedWorker( p, seed, j, jobs, shs[j], g_root + strf( "/w%d", j ), g_root + strf( "/w%d.out", j ), t0 + share, seen, fstat, g_root + "/corpus", round[j] );
            if( q == 0 ) worker( p, seed, first, jobs, count, shs[j], g_root + strf( "/w%d", j ), g_root + strf( "/w%d.out", j ), deadline );
            if( phase == 1 ) ++round[j];
            pid[j] = q; ++alive;
        };
        int flaky = 0, broken = 0; double plain = 0;
        std::map<std::string, std::pair<long, long>> buckets;
        for( phase = 0; phase < ( guided > 0 ? 2 : 1 ) && !broken; ++phase )
        {
        if( phase == 1 ) { rmTree( g_root + "/corpus" ); mkdir( ( g_root + "/corpus" ).c_str(), 0700 ); memset( seen, 0, g_cov1 - g_cov0 ); fstat[0] = fstat[1] = 0; }
        else if( guided >= 1 ) continue;
        for( int j = 0; j < jobs; ++j ) launch( j, j );
        while( alive > 0 )
        {
            int st; pid_t q = wait( &st );
            if( q < 0 ) { if( errno == EINTR ) continue; break; }
            int j = -1; for( int k = 0; k < jobs; ++k ) if( pid[k] == q ) j = k;
            if( j < 0 ) continue;
            pid[j] = 0; --alive;
            if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) continue;
            long cs = shs[j]->curCase;
            if( cs < 0 ) { fprintf( stderr, "worker died outside a case\n" ); continue; }
            std::string m = ( WIFEXITED( st ) && WEXITSTATUS( st ) == 77 ) ? std::string( shs[j]->msg ) : "CRASH: " + statusStr( st );
            if( survey )
            {
                // development aid: collect all kinds of failures, by message or place of the crash
                std::string key = m.substr( 0, m.find( '\n' ) ), err = readFile( g_root + strf( "/w%d.err", j ) ), add;
                for( auto& ch : key ) if( isdigit( ch ) ) ch = '#';
                if( m.compare( 0, 5, "CRASH" ) == 0 )
                {
                    size_t a = err.rfind( "runtime error:" ); if( a != std::string::npos ) add += " " + err.substr( a, err.find( '\n', a ) - a );
                    a = err.rfind( "ERROR: AddressSanitizer:" ); if( a != std::string::npos ) add += " " + err.substr( a + 25, 30 ).substr( 0, err.substr( a + 25, 30 ).find( ' ' ) );
                    size_t b = a == std::string::npos ? 0 : a; int nf = 0;
                    while( nf < 2 && ( b = err.find( "    #", b ) ) != std::string::npos ) { std::string ln = err.substr( b, err.find( '\n', b ) - b ); ++b; size_t r = ln.find( "/repo/src/" ); if( r != std::string::npos ) { add += " " + ln.substr( r + 10 ); ++nf; } }
                    if( add.empty() ) { key = "CRASH " + m.substr( 0, 60 ); }
                    else key = "CRASH" + add;
                }
                auto& bk = buckets[key]; if( bk.first++ == 0 ) bk.second = cs;
                if( phase == 1 ? now() < t0 + share : cs + jobs < count ) launch( j, cs + jobs );
                continue;
            }
            // confirm three times before it counts
            bool ok = true; Outcome o; std::vector<uint32_t> rec( shs[j]->rec, shs[j]->rec + shs[j]->nrec );
            for( int r = 0; r < 3 && ok; ++r ) { o = runIsolated( p, phase == 1 ? &rec : NULL, caseSeed( seed, p, cs ), iso ); ok = o.fail; }
            if( ok )
            {
                fails.push_back( std::make_pair( cs, m ) );
                for( int k = 0; k < jobs; ++k ) if( pid[k] ) kill( pid[k], SIGKILL );
                for( int k = 0; k < jobs; ++k ) if( pid[k] ) { int s2; waitpid( pid[k], &s2, 0 ); pid[k] = 0; }
                alive = 0;
                Outcome b = noshrink ? o : shrink( p, o, iso, 30 );
                // the shrunk form must replay three times as well, otherwise keep the original
                bool rep = true;
                for( int r = 0; r < 3 && rep; ++r ) { Outcome z = runIsolated( p, &b.rec, 0, iso ); rep = z.fail; if( rep ) b.msg = z.msg, b.desc = z.desc; }
                if( !rep ) b = o;
                mkdir( repdir.c_str(), 0755 );
                std::string rp = repdir + "/" + p.id + "-" + p.sub + strf( "-%llu-%ld.replay", (unsigned long long)seed, cs );
                saveReplay( rp, p, b, seed );
                printf( "--- %s/%s case %ld (seed %llu)\n%s\n--- shrunk case (%zu choices)\n%s\n", p.id.c_str(), p.sub.c_str(), cs,
                        (unsigned long long)seed, b.msg.c_str(), b.rec.size(), b.desc.c_str() );
                printf( "VIOLATION property=%s replay=%s\n", p.id.c_str(), rp.c_str() );
                fflush( stdout );
                ++violations; broken = 1;
                break;
            }
            ++flaky;
            fprintf( stderr, "unreproducible failure in case %ld of %s/%s: %s\n", cs, p.id.c_str(), p.sub.c_str(), m.c_str() );
            if( flaky < 20 && ( phase == 1 ? now() < t0 + share : cs + jobs < count ) ) launch( j, cs + jobs );
        }
        if( phase == 0 ) plain = now() - t0;
        }
        for( auto& b : buckets ) printf( "SURVEY %ld times, first case %ld: %s\n", b.second.first, b.second.second, b.first.c_str() );
        for( int j = 0; j < jobs; ++j ) { collect( g_root + strf( "/w%d.out", j ), t ); rmTree( g_root + strf( "/w%d", j ) ); unlink( ( g_root + strf( "/w%d.err", j ) ).c_str() ); }
        all.evals += t.evals; all.nontriv += t.nontriv;
        for( auto h : t.distinct ) all.distinct.insert( mix( h ) ^ std::hash<std::string>()( p.sub ) );
        for( auto& l : t.labels ) all.labels[p.sub + ":" + l.first] += l.second;
        for( size_t k = 0; k < t.samples.size() && k < 2; ++k ) all.samples.push_back( "[" + p.sub + "] " + t.samples[k] );
        all.known.insert( t.known.begin(), t.known.end() );
        perSub[p.sub] = { t.evals, (long)t.distinct.size(), count, flaky };
        rule += ( rule.empty() ? "" : " | " ) + p.sub + ": " + p.rule;
        if( guided > 0 ) { gcorpus[p.sub] = { fstat[0], fstat[1] }; printf( "%s/%s: coverage-guided search: %ld choice sequences in the corpus, %ld features of %ld edges\n", p.id.c_str(), p.sub.c_str(), fstat[0], fstat[1], (long)( g_cov1 - g_cov0 ) ); }
        printf( "%s/%s: %ld of %ld cases, %zu distinct non-trivial, %.1f s\n", p.id.c_str(), p.sub.c_str(), t.evals, count, t.distinct.size(), now() - t0 );
        fflush( stdout );
    }
    for( auto& k : all.known ) printf( "KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str() );
    if( !evid.empty() )
    {
        std::ostringstream o;
        o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << g_tier << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << all.evals
          << ",\n  \"distinct_nontrivial\": " << all.distinct.size() << ",\n  \"rule\": \"" << jesc( rule ) << "\",\n  \"samples\": [";
        for( size_t i = 0; i < all.samples.size(); ++i ) o << ( i ? ",\n   " : "\n   " ) << "\"" << jesc( all.samples[i] ) << "\"";
        o << "\n  ],\n  \"classes\": {";
        bool f = true; for( auto& l : all.labels ) { o << ( f ? "\n   " : ",\n   " ) << "\"" << jesc( l.first ) << "\": " << l.second; f = false; }
        o << "\n  },\n  \"per_subcheck\": {"; f = true;
        for( auto& s : perSub ) { o << ( f ? "\n   " : ",\n   " ) << "\"" << s.first << "\": {\"evaluations\": " << s.second[0] << ", \"distinct_nontrivial\": " << s.second[1] << ", \"planned\": " << s.second[2] << ", \"unreproducible\": " << s.second[3];
            if( gcorpus.count( s.first ) ) o << ", \"guided_corpus\": " << gcorpus[s.first].first << ", \"guided_features\": " << gcorpus[s.first].second;
            o << "}"; f = false; }
        o << "\n  }\n },\n \"wall_s\": " << ( now() - T0 ) << ",\n \"violations\": " << violations << "\n}\n";
        writeFile( evid, o.str() );
    }
    rmTree( g_root );
    return violations ? 1 : 0;
}

#if __has_include( <sanitizer/allocator_interface.h> )
#include <sanitizer/allocator_interface.h>
size_t leak( const std::function<void()>& f )
{
    f(); size_t min = (size_t)-1;                       // the first run may fill caches
    for( int i = 0; i < 3 && min; ++i ) { size_t a = __sanitizer_get_current_allocated_bytes(); f(); size_t b = __sanitizer_get_current_allocated_bytes(); min = std::min( min, b > a ? b - a : 0 ); }
    return min;
}
#else
size_t leak( const std::function<void()>& f ) { f(); return 0; }
#endif

static bool currentStamp( int y, int mo, int d, int h, int mi, int se )
{
    if( mo < 1 || mo > 12 || d < 1 || d > 31 || h < 0 || h > 23 || mi < 0 || mi > 59 || se < 0 || se > 60 ) return false;
    struct tm a; memset( &a, 0, sizeof a ); a.tm_year = y - 1900; a.tm_mon = mo - 1; a.tm_mday = d; a.tm_hour = h; a.tm_min = mi; a.tm_sec = se;
    struct tm b = a; b.tm_isdst = -1; time_t now = time( NULL );
    return llabs( (long long)( timegm( &a ) - now ) ) < 900 || llabs( (long long)( mktime( &b ) - now ) ) < 900;
}
bool currentStamp( const std::string& t, const char* form )
{   // digits where the form has letters
    std::map<char, int> v; if( t.size() != strlen( form ) ) return false;
    for( size_t i = 0; i < t.size(); ++i )
    {
        if( !isalpha( (unsigned char)form[i] ) ) { if( t[i] != form[i] ) return false; continue; }
        if( !isdigit( (unsigned char)t[i] ) ) return false;
        v[form[i]] = v[form[i]] * 10 + ( t[i] - '0' );
    }
    if( v.count( 'J' ) )    // day of the year
    {
        struct tm a; memset( &a, 0, sizeof a ); a.tm_year = v['Y'] - 1900; a.tm_mday = v['J'];
        if( v['J'] < 1 || v['J'] > 366 ) return false;
        timegm( &a ); v['M'] = a.tm_mon + 1; v['D'] = a.tm_mday;
    }
    return currentStamp( v['Y'], v['M'], v['D'], v['h'], v['m'], v['s'] );
}
