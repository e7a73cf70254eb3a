// Small property-based testing engine: every generated value comes from a "tape" of bounded
// integer choices.  A random case fills the tape from a seeded generator, a replay reads it from a
// file, and shrinking edits the tape (integrated shrinking), so any generator can be shrunk.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt
{
    struct Rng
    {
        uint64_t s;
        explicit Rng( uint64_t seed ) : s( seed ) {}
        uint64_t next()
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return z ^ ( z >> 31 );
        }
    };
    uint64_t hash64( const std::string& s );
    uint64_t mix( uint64_t a, uint64_t b );

    struct Discard {};

    class Tape
    {
    public:
        explicit Tape( uint64_t seed ) : myRng( seed ), myReplay( false ) {}
        explicit Tape( const std::vector<uint32_t>& choices ) : myRng( 0 ), myReplay( true ), myIn( choices ) {}

        // uniform in [0,n); n>=1.  0 is the simplest outcome.
        uint32_t below( uint32_t n );
        // inclusive range, simplest is lo
        int range( int lo, int hi ) { return lo + (int)below( (uint32_t)( (int64_t)hi - lo + 1 ) ); }
        // inclusive range, simplest is z (lo<=z<=hi)
        int around( int lo, int hi, int z );
        // true with probability num/den; false is simplest
        bool chance( uint32_t num, uint32_t den ) { return below( den ) >= den - num; }
        bool coin() { return below( 2 ) == 1; }
        template <class T> const T& pick( const std::vector<T>& v ) { return v[below( (uint32_t)v.size() )]; }
        template <class T> T pick( std::initializer_list<T> v ) { return *( v.begin() + below( (uint32_t)v.size() ) ); }
        // weighted index, 0 simplest
        size_t weighted( std::initializer_list<uint32_t> w );
        // repeated "one more?" with expected count avg: lists shrink by deleting their elements
        bool more( double avg ) { return chance( (uint32_t)( 1000 * avg / ( avg + 1 ) ), 1000 ); }
        uint64_t bits64();
        const std::vector<uint32_t>& record() const { return myOut; }
        bool exhausted() const { return myReplay && myPos >= myIn.size(); }
    private:
        Rng myRng;
        bool myReplay;
        std::vector<uint32_t> myIn, myOut;
        size_t myPos = 0;
    };

    struct Failure
    {
        std::string fingerprint; // class of failure: stable, no addresses or case specific data
        std::string message;
    };

    // what one case reports
    class Ctx
    {
    public:
        void fail( const std::string& fingerprint, const std::string& message );
        void tag( const std::string& t, uint64_t n = 1 ) { tags[t] += n; }
        // count this case as non-trivial, distinct by key
        void nontrivial( const std::string& key ) { keys.insert( hash64( key ) ); }
        void nontrivialHash( uint64_t key ) { keys.insert( key ); }
        // readable form of the case's input (stored in replay files and samples)
        void input( const std::string& text );
        // extra executions evaluated within this case (default one per case)
        void evaluations( uint64_t n ) { evals += n; }
        bool failed() const { return !failures.empty(); }

        std::vector<Failure> failures;
        std::map<std::string, uint64_t> tags;
        std::set<uint64_t> keys;
        std::string inputText;
        uint64_t evals = 0;
        bool replaying = false;
        bool thorough = false;
        uint64_t caseIndex = 0;
    };

    using PropFn = std::function<void( Tape&, Ctx& )>;

    struct Property
    {
        std::string id;        // property id
        std::string sub;       // sub-check name within the property
        std::string rule;      // what counts as non-trivial
        PropFn fn;
        uint64_t quickCases;   // number of cases, fixed per tier
        uint64_t thoroughCases;
        unsigned caseSeconds = 60;  // CPU seconds after which a case counts as not returning
        bool serial = false;   // run in a single worker
        bool enumerated = false; // the case index, not randomness, selects the input: run exactly all cases
        bool flakyOk = false;  // concurrency: one reproduction out of several is enough
    };

    std::vector<Property>& registry();
    struct Register { explicit Register( Property p ) { registry().push_back( std::move( p ) ); } };

    // path of a scratch directory private to this process (removed at exit of the runner)
    std::string scratchDir();
    std::string verifDir();
    std::string repoDir();
    std::string jsonEscape( const std::string& s );
    std::string readFile( const std::string& path );

    int runMain( int argc, char** argv );
}

#define PBT_CONCAT2( a, b ) a##b
#define PBT_CONCAT( a, b ) PBT_CONCAT2( a, b )
#define PBT_PROPERTY static pbt::Register PBT_CONCAT( pbtReg, __COUNTER__ )
