// Minimal property-based-testing engine: every random decision is a draw from a recorded choice
// sequence, so that any failure (including a crash of the code under test) can be replayed and
// shrunk generically.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <stdexcept>

struct Failure : std::runtime_error
{
    explicit Failure( const std::string& m ) : std::runtime_error( m ) {}
};

struct Shared;      // shared memory used to report from worker to driver

class Src
{
public:
    // random mode
    Src( uint64_t seed, Shared* sh );
    // replay mode
    Src( const std::vector<uint32_t>& choices, Shared* sh );

    uint32_t draw( uint32_t n );                    // uniform in [0,n); 0 is the simplest value
    int  range( int lo, int hi ) { return lo + (int)draw( (uint32_t)( hi - lo + 1 ) ); }
    bool chance( int num, int den ) { return (int)draw( den ) >= den - num; }  // simplest = false
    bool flip() { return draw( 2 ) == 1; }
    size_t weighted( const std::vector<int>& w );   // index; 0 is simplest
    template<class T> const T& pick( const std::vector<T>& v ) { return v[draw( (uint32_t)v.size() )]; }
    // real value with assorted magnitudes; |v| <= lim; simplest = 0
    double real( double lim );
    // value on a grid of step 'q' in [lo,hi]
    double grid( double lo, double hi, double q );
    uint64_t hash() const { return h; }
    // guided mode: the choices are taken modulo the number of alternatives and continued at random
    void guided( uint64_t seed ) { wild = true; st = seed; }
    size_t used() const;
    // replay of choices without a report to anybody
    explicit Src( const std::vector<uint32_t>& choices );
    size_t recorded() const;                                // number of choices so far ...
    std::vector<uint32_t> since( size_t from ) const;       // ... and those after the first ones

private:
    bool replay, wild = false;
    std::vector<uint32_t> in;
    size_t pos;
    uint64_t st;
    uint64_t h;
    Shared* sh;
    uint64_t next();
};

struct Ctx
{
    std::string prop, tier, scratch;    // scratch: private directory of this worker
    bool thorough = false;
    bool verbose = false;
    // per case
    bool nontrivial = false;
    std::string desc;
    std::map<std::string, long> labels;
    std::set<std::string> known;        // known findings seen in this case
    void label( const std::string& s, long n = 1 ) { labels[s] += n; }
    std::string path( const std::string& name ) const { return scratch + "/" + name; }
};

#define REQ( cond, msg ) do { if( !( cond ) ) { std::ostringstream o_; o_.precision( 17 ); o_ << msg; throw Failure( o_.str() ); } } while( 0 )
#define FAILMSG( msg ) REQ( false, msg )

struct Property
{
    std::string id;
    std::string sub;                        // sub-check name
    std::string rule;                       // what makes a case non-trivial
    long quickCases, thoroughCases;
    std::function<void( Src&, Ctx& )> run;
};

std::vector<Property>& registry();
struct Register
{
    Register( const char* id, const char* sub, const char* rule, long q, long t, std::function<void( Src&, Ctx& )> f )
    {
        Property p; p.id = id; p.sub = sub; p.rule = rule; p.quickCases = q; p.thoroughCases = t; p.run = f;
        registry().push_back( p );
    }
};
#define CAT2( a, b ) a##b
#define CAT( a, b ) CAT2( a, b )
#define PROPERTY( id, sub, rule, q, t, fn ) static Register CAT( reg_, __LINE__ )( id, sub, rule, q, t, fn )

std::string readFile( const std::string& p );
void writeFile( const std::string& p, const std::string& s );
std::string strf( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
// whether t is a time stamp of about now; form: YYYY MM DD JJJ (day of the year) hh mm ss and literals
bool currentStamp( const std::string& t, const char* form );
// bytes which every run of f leaves behind (0 if one of the later runs leaves none)
size_t leak( const std::function<void()>& f );
#endif
