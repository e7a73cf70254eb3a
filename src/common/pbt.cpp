#include "common/pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined( __SANITIZE_ADDRESS__ )
#define PBT_ASAN 1
#elif defined( __has_feature )
#if __has_feature( address_sanitizer )
#define PBT_ASAN 1
#endif
#endif

extern "C" const char* __asan_default_options()
{
    return "abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=1:handle_segv=1:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:max_allocation_size_mb=4096:symbolize=1:print_summary=1"; // malloc may fail, operator new may not
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1:exitcode=78:print_summary=1";
}
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=79:second_deadlock_stack=1";
}

namespace pbt
{
    // when set, choices and input text are mirrored to shared memory so that they survive a crash
    static constexpr size_t TAPE_CAP = 4000000, TEXT_CAP = 4000000;
    static uint32_t* gPublish = nullptr;
    static char* gPublishText = nullptr;

    uint64_t mix( uint64_t a, uint64_t b )
    {
        Rng r( a ^ ( b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull ) );
        r.next();
        return r.next();
    }
    uint64_t hash64( const std::string& s )
    {
        uint64_t h = 1469598103934665603ull;
        for( unsigned char c : s )
        {
            h ^= c;
            h *= 1099511628211ull;
        }
        return mix( h, s.size() );
    }

    uint32_t Tape::below( uint32_t n )
    {
        if( n <= 1 )
        {
            return 0;
        }
        uint32_t v = 0;
        if( myReplay )
        {
            v = myPos < myIn.size() ? myIn[myPos] : 0;
            ++myPos;
            if( v >= n )
            {
                v = n - 1;
            }
        }
        else
        {
            v = (uint32_t)( myRng.next() >> 32 ) % n;
        }
        myOut.push_back( v );
        if( gPublish && myOut.size() < TAPE_CAP )
        {
            gPublish[myOut.size()] = v;
            gPublish[0] = (uint32_t)myOut.size();
        }
        if( myOut.size() > TAPE_CAP )
        {
            throw Discard{};
        }
        return v;
    }
    int Tape::around( int lo, int hi, int z )
    {
        // order: z, z+1, z-1, ...
        const uint32_t n = (uint32_t)( (int64_t)hi - lo + 1 );
        uint32_t k = below( n );
        int64_t up = hi - (int64_t)z, dn = (int64_t)z - lo;
        int64_t m = std::min( up, dn );
        if( k == 0 ) return z;
        if( k <= 2 * m ) return ( k % 2 ) ? (int)( z + ( k + 1 ) / 2 ) : (int)( z - k / 2 );
        int64_t rest = k - 2 * m;
        return up > dn ? (int)( z + m + rest ) : (int)( z - m - rest );
    }
    size_t Tape::weighted( std::initializer_list<uint32_t> w )
    {
        uint32_t total = 0;
        for( auto x : w ) total += x;
        uint32_t v = below( total );
        size_t i = 0;
        for( auto x : w )
        {
            if( v < x ) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    uint64_t Tape::bits64()
    {
        uint64_t r = 0;
        for( int i = 0; i < 4; ++i )
        {
            r |= (uint64_t)below( 65536 ) << ( 16 * i );
        }
        return r;
    }

    void Ctx::input( const std::string& text )
    {
        inputText += text;
        if( gPublishText && inputText.size() < TEXT_CAP ) memcpy( gPublishText, inputText.c_str(), inputText.size() + 1 );
    }
    void Ctx::fail( const std::string& fp, const std::string& message )
    {
        for( auto& f : failures )
        {
            if( f.fingerprint == fp ) return;
        }
        if( failures.size() < 200 ) failures.push_back( { fp, message.substr( 0, 20000 ) } );
    }

    std::vector<Property>& registry()
    {
        static std::vector<Property> r;
        return r;
    }

    std::string verifDir()
    {
        const char* e = getenv( "MX_VERIF" );
        return e ? e : "/verif";
    }
    std::string repoDir()
    {
        const char* e = getenv( "MX_REPO" );
        return e ? e : "/repo";
    }
    static std::string gScratch;
    static pid_t gMainPid = 0;
    std::string scratchDir()
    {
        std::string d = gScratch + "/p" + std::to_string( (long)getpid() );
        mkdir( d.c_str(), 0700 );
        return d;
    }

    std::string jsonEscape( const std::string& s )
    {
        std::string o;
        for( size_t i = 0; i < s.size(); ++i )
        {
            unsigned char c = (unsigned char)s[i];
            if( c == '"' || c == '\\' ) { o += '\\'; o += (char)c; }
            else if( c == '\n' ) o += "\\n";
            else if( c < 0x20 || c == 0x7f )
            {
                char b[8];
                snprintf( b, sizeof b, "\\u%04x", c );
                o += b;
            }
            else if( c < 0x80 ) o += (char)c;
            else
            {
                // keep valid UTF-8 sequences, replace anything else
                int n = c >= 0xf0 && c < 0xf5 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 && c < 0xe0 ? 2 : 0;
                if( c >= 0xf5 ) n = 0;
                bool ok = n > 0 && i + n <= s.size();
                for( int k = 1; ok && k < n; ++k ) ok = ( (unsigned char)s[i + k] & 0xc0 ) == 0x80;
                if( ok && n == 3 )
                {
                    unsigned cp = ( ( c & 15 ) << 12 ) | ( ( s[i + 1] & 63 ) << 6 ) | ( s[i + 2] & 63 );
                    ok = cp >= 0x800 && !( cp >= 0xd800 && cp < 0xe000 );
                }
                if( ok && n == 4 )
                {
                    unsigned cp = ( ( c & 7 ) << 18 ) | ( ( s[i + 1] & 63 ) << 12 ) | ( ( s[i + 2] & 63 ) << 6 ) | ( s[i + 3] & 63 );
                    ok = cp >= 0x10000 && cp < 0x110000;
                }
                if( ok ) { o.append( s, i, n ); i += n - 1; }
                else
                {
                    char b[16];
                    snprintf( b, sizeof b, "\\\\x%02x", c );
                    o += b;
                }
            }
        }
        return o;
    }
    std::string readFile( const std::string& path )
    {
        std::ifstream f( path, std::ios::binary );
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }

    namespace
    {
        constexpr int MAX_WORKERS = 16;
        struct Slot
        {
            std::atomic<uint64_t> current;
            std::atomic<uint64_t> done;
            std::atomic<uint32_t> busy;
        };

        double now()
        {
            return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
        }

        void armTimers( unsigned sec )
        {
            itimerval v{};
            v.it_value.tv_sec = sec;
            setitimer( ITIMER_PROF, &v, nullptr );
            itimerval w{};
            w.it_value.tv_sec = sec ? sec * 6 : 0;
            setitimer( ITIMER_REAL, &w, nullptr );
        }
        void onTimer( int )
        {
            const char m[] = "\nPBT-TIMEOUT\n";
            ssize_t r = write( 2, m, sizeof m - 1 );
            (void)r;
            _exit( 76 );
        }
        void onTerminate()
        {
            const char m[] = "\nPBT-TERMINATE: uncaught exception or std::terminate\n";
            ssize_t r = write( 2, m, sizeof m - 1 );
            (void)r;
            _exit( 75 );
        }

        uint64_t caseSeed( const Property& p, uint64_t seed, uint64_t index )
        {
            return mix( mix( hash64( p.id + "/" + p.sub ), seed ), index );
        }

        void runOne( const Property& p, Tape& t, Ctx& c )
        {
            try
            {
                p.fn( t, c );
            }
            catch( const Discard& )
            {
                c.tag( "discarded" );
                c.keys.clear();
                c.failures.clear();
            }
            catch( const std::exception& e )
            {
                c.fail( "harness-exception", std::string( "exception escaped to the harness: " ) + e.what() );
            }
            catch( ... )
            {
                c.fail( "non-std-exception", "something that is not a std::exception escaped" );
            }
        }

        // ---- known findings -------------------------------------------------------------------
        struct Known
        {
            std::string property, fingerprint, replay, what;
        };
        std::vector<Known> loadKnown( const std::string& id )
        {
            std::vector<Known> out;
            std::ifstream f( verifDir() + "/known-findings.txt" );
            std::string line;
            while( std::getline( f, line ) )
            {
                if( line.compare( 0, 6, "known:" ) != 0 ) continue;
                Known k;
                std::stringstream ss( line.substr( 6 ) );
                std::string w, rest;
                while( ss >> w )
                {
                    if( w.compare( 0, 9, "property=" ) == 0 ) k.property = w.substr( 9 );
                    else if( w.compare( 0, 12, "fingerprint=" ) == 0 ) k.fingerprint = w.substr( 12 );
                    else if( w.compare( 0, 7, "replay=" ) == 0 ) k.replay = w.substr( 7 );
                    else
                    {
                        std::getline( ss, rest );
                        k.what = w + rest;
                        break;
                    }
                }
                if( k.property == id ) out.push_back( k );
            }
            return out;
        }

        // ---- a single case in a child ---------------------------------------------------------
        struct Outcome
        {
            bool ok = false;      // child ended normally
            std::vector<Failure> failures;
            std::string input;
            std::vector<uint32_t> record;
        };

        std::string fingerprintOfCrash( const std::string& err, int status, std::string& message )
        {
            std::string kind = "crash";
            if( err.find( "PBT-TIMEOUT" ) != std::string::npos ) kind = "hang";
            else if( err.find( "PBT-TERMINATE" ) != std::string::npos ) kind = "terminate";
            else
            {
                auto pos = err.find( "ERROR: AddressSanitizer: " );
                if( pos != std::string::npos )
                {
                    pos += 25;
                    kind = "asan-" + err.substr( pos, err.find_first_of( " :\n", pos ) - pos );
                }
                else if( ( pos = err.find( "runtime error: " ) ) != std::string::npos )
                {
                    std::string t = err.substr( pos + 15, err.find( '\n', pos ) - pos - 15 );
                    std::string w;
                    for( char ch : t )
                    {
                        if( isdigit( (unsigned char)ch ) ) continue;
                        w += isalpha( (unsigned char)ch ) ? ch : '-';
                    }
                    std::string w2;
                    for( char ch : w ) if( ch != '-' || ( !w2.empty() && w2.back() != '-' ) ) w2 += ch;
                    kind = "ubsan-" + w2.substr( 0, 48 );
                }
                else if( err.find( "WARNING: ThreadSanitizer: " ) != std::string::npos )
                {
                    pos = err.find( "WARNING: ThreadSanitizer: " ) + 26;
                    std::string t = err.substr( pos, err.find_first_of( "(\n", pos ) - pos );
                    for( char& ch : t ) if( !isalnum( (unsigned char)ch ) ) ch = '-';
                    kind = "tsan-" + t;
                }
                else if( WIFSIGNALED( status ) ) kind = "signal-" + std::to_string( WTERMSIG( status ) );
            }
            // top frame inside mx, ezxml or pugi
            std::string where;
            size_t p = 0;
            while( ( p = err.find( "    #", p ) ) != std::string::npos )
            {
                size_t e = err.find( '\n', p );
                std::string line = err.substr( p, e - p );
                p = e == std::string::npos ? err.size() : e;
                size_t in = line.find( " in " );
                if( in == std::string::npos ) continue;
                std::string fn = line.substr( in + 4 );
                if( fn.compare( 0, 4, "mx::" ) != 0 && fn.compare( 0, 7, "ezxml::" ) != 0 && fn.compare( 0, 6, "pugi::" ) != 0 ) continue;
                where = fn.substr( 0, fn.find_first_of( "( <" ) );
                break;
            }
            message = err.substr( 0, 6000 );
            if( !where.empty() ) kind += "@" + where;
            for( char& ch : kind ) if( ch == ' ' ) ch = '-';
            return kind;
        }

        void childSetup( const Property& p, const std::string& errPath )
        {
            int fd = open( errPath.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600 );
            dup2( fd, 2 );
            int nul = open( "/dev/null", O_WRONLY );
            dup2( nul, 1 );
            close( fd );
            close( nul );
            rlimit rl{ 0, 0 };
            setrlimit( RLIMIT_CORE, &rl );
            signal( SIGPROF, onTimer );
            signal( SIGALRM, onTimer );
            signal( SIGPIPE, SIG_DFL );
            std::set_terminate( onTerminate );
            (void)p;
        }

        template <class T> void put( std::string& b, const T& v ) { b.append( (const char*)&v, sizeof v ); }
        void putS( std::string& b, const std::string& s )
        {
            put( b, (uint64_t)s.size() );
            b += s;
        }
        struct Rd
        {
            const std::string& b;
            size_t p = 0;
            bool bad = false;
            template <class T> T get()
            {
                T v{};
                if( p + sizeof v > b.size() ) { bad = true; return v; }
                memcpy( &v, b.data() + p, sizeof v );
                p += sizeof v;
                return v;
            }
            std::string getS()
            {
                uint64_t n = get<uint64_t>();
                if( bad || p + n > b.size() ) { bad = true; return {}; }
                std::string s = b.substr( p, n );
                p += n;
                return s;
            }
        };

        uint32_t* gShared = nullptr;
        char* gSharedText = nullptr;
        void resetShared()
        {
            gShared = nullptr;
            gSharedText = nullptr;
        }

        Outcome runChild( const Property& p, const std::vector<uint32_t>* tape, uint64_t seed, bool thorough, uint64_t index )
        {
            static int counter = 0;
            const std::string base = gScratch + "/one" + std::to_string( (long)getpid() ) + "_" + std::to_string( counter++ );
            const std::string err = base + ".err", res = base + ".res";
            uint32_t*& shared = gShared;
            char*& sharedText = gSharedText;
            if( !shared )
            {
                shared = (uint32_t*)mmap( nullptr, ( TAPE_CAP + 1 ) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
                sharedText = (char*)mmap( nullptr, TEXT_CAP + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            }
            shared[0] = 0;
            sharedText[0] = 0;
            fflush( nullptr );
            pid_t pid = fork();
            if( pid == 0 )
            {
                childSetup( p, err );
                gPublish = shared;
                gPublishText = sharedText;
                Tape t = tape ? Tape( *tape ) : Tape( seed );
                Ctx c;
                c.replaying = true;
                c.thorough = thorough;
                c.caseIndex = index;
                armTimers( p.caseSeconds );
                runOne( p, t, c );
                armTimers( 0 );
                std::string b;
                put( b, (uint64_t)c.failures.size() );
                for( auto& f : c.failures )
                {
                    putS( b, f.fingerprint );
                    putS( b, f.message );
                }
                putS( b, c.inputText );
                put( b, (uint64_t)t.record().size() );
                for( auto v : t.record() ) put( b, v );
                std::ofstream o( res, std::ios::binary );
                o << b;
                o.close();
                _exit( 0 );
            }
            int status = 0;
            while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
            Outcome o;
            if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 )
            {
                std::string b = readFile( res );
                Rd r{ b };
                uint64_t n = r.get<uint64_t>();
                for( uint64_t i = 0; i < n && !r.bad; ++i )
                {
                    Failure f;
                    f.fingerprint = r.getS();
                    f.message = r.getS();
                    o.failures.push_back( f );
                }
                o.input = r.getS();
                uint64_t m = r.get<uint64_t>();
                for( uint64_t i = 0; i < m && !r.bad; ++i ) o.record.push_back( r.get<uint32_t>() );
                o.ok = !r.bad;
            }
            else
            {
                Failure f;
                f.fingerprint = fingerprintOfCrash( readFile( err ), status, f.message );
                o.failures.push_back( f );
                o.record.assign( shared + 1, shared + 1 + shared[0] );
                o.input = sharedText;
            }
            unlink( err.c_str() );
            unlink( res.c_str() );
            std::string d = gScratch + "/p" + std::to_string( (long)pid );
            std::string cmd = "rm -rf '" + d + "'";
            struct stat st;
            if( stat( d.c_str(), &st ) == 0 ) { int rc = system( cmd.c_str() ); (void)rc; }
            return o;
        }

        bool has( const Outcome& o, const std::string& fp )
        {
            for( auto& f : o.failures ) if( f.fingerprint == fp ) return true;
            return false;
        }

        std::vector<uint32_t> shrink( const Property& p, std::vector<uint32_t> best, const std::string& fp, bool thorough,
                                      uint64_t index, double budget, uint64_t& attempts )
        {
            const double t0 = now();
            auto tryIt = [&]( const std::vector<uint32_t>& cand ) -> bool {
                if( now() - t0 > budget ) return false;
                ++attempts;
                Outcome o = runChild( p, &cand, 0, thorough, index );
                if( !has( o, fp ) ) return false;
                std::vector<uint32_t> rec = o.record.size() <= cand.size() ? o.record : cand;
                best = rec;
                return true;
            };
            bool progress = true;
            while( progress && now() - t0 < budget )
            {
                progress = false;
                // truncate
                for( size_t cut = best.size() / 2; cut >= 1; cut /= 2 )
                {
                    while( best.size() > cut )
                    {
                        std::vector<uint32_t> c( best.begin(), best.end() - cut );
                        if( !tryIt( c ) ) break;
                        progress = true;
                    }
                    if( now() - t0 > budget ) break;
                }
                // delete blocks
                for( size_t len = std::max<size_t>( 1, best.size() / 2 ); len >= 1; len /= 2 )
                {
                    for( size_t i = 0; i + len <= best.size(); )
                    {
                        std::vector<uint32_t> c = best;
                        c.erase( c.begin() + i, c.begin() + i + len );
                        if( tryIt( c ) ) progress = true;
                        else i += len;
                        if( now() - t0 > budget ) break;
                    }
                    if( now() - t0 > budget ) break;
                }
                // zero blocks
                for( size_t len = std::max<size_t>( 1, best.size() / 4 ); len >= 1; len /= 2 )
                {
                    for( size_t i = 0; i + len <= best.size(); i += len )
                    {
                        bool any = false;
                        for( size_t k = i; k < i + len; ++k ) any |= best[k] != 0;
                        if( !any ) continue;
                        std::vector<uint32_t> c = best;
                        std::fill( c.begin() + i, c.begin() + i + len, 0 );
                        if( tryIt( c ) ) progress = true;
                        if( now() - t0 > budget ) break;
                    }
                    if( now() - t0 > budget ) break;
                }
                // lower single values
                for( size_t i = 0; i < best.size() && now() - t0 < budget; ++i )
                {
                    uint32_t lo = 0;
                    while( i < best.size() && best[i] > lo )
                    {
                        uint32_t mid = lo + ( best[i] - lo ) / 2;
                        std::vector<uint32_t> c = best;
                        c[i] = mid;
                        if( tryIt( c ) ) progress = true;
                        else lo = mid + 1;
                        if( now() - t0 > budget ) break;
                    }
                }
            }
            return best;
        }

        struct WorkerResult
        {
            uint64_t cases = 0, evals = 0;
            std::map<std::string, uint64_t> tags;
            std::set<uint64_t> keys;
            std::vector<std::string> samples;
            struct F { uint64_t index; std::string fp, msg; };
            std::vector<F> failures;
            std::map<std::string, uint64_t> knownSeen;
        };

        void save( const WorkerResult& w, const std::string& path )
        {
            std::string b;
            put( b, w.cases );
            put( b, w.evals );
            put( b, (uint64_t)w.tags.size() );
            for( auto& t : w.tags ) { putS( b, t.first ); put( b, t.second ); }
            put( b, (uint64_t)w.keys.size() );
            for( auto k : w.keys ) put( b, k );
            put( b, (uint64_t)w.samples.size() );
            for( auto& s : w.samples ) putS( b, s );
            put( b, (uint64_t)w.failures.size() );
            for( auto& f : w.failures ) { put( b, f.index ); putS( b, f.fp ); putS( b, f.msg ); }
            put( b, (uint64_t)w.knownSeen.size() );
            for( auto& t : w.knownSeen ) { putS( b, t.first ); put( b, t.second ); }
            std::ofstream o( path + ".tmp", std::ios::binary );
            o << b;
            o.close();
            rename( ( path + ".tmp" ).c_str(), path.c_str() );
        }
        bool load( WorkerResult& w, const std::string& path )
        {
            std::string b = readFile( path );
            if( b.empty() ) return false;
            Rd r{ b };
            w.cases += r.get<uint64_t>();
            w.evals += r.get<uint64_t>();
            for( uint64_t n = r.get<uint64_t>(); n > 0 && !r.bad; --n ) { auto k = r.getS(); w.tags[k] += r.get<uint64_t>(); }
            for( uint64_t n = r.get<uint64_t>(); n > 0 && !r.bad; --n ) w.keys.insert( r.get<uint64_t>() );
            for( uint64_t n = r.get<uint64_t>(); n > 0 && !r.bad; --n ) w.samples.push_back( r.getS() );
            for( uint64_t n = r.get<uint64_t>(); n > 0 && !r.bad; --n )
            {
                WorkerResult::F f;
                f.index = r.get<uint64_t>();
                f.fp = r.getS();
                f.msg = r.getS();
                w.failures.push_back( f );
            }
            for( uint64_t n = r.get<uint64_t>(); n > 0 && !r.bad; --n ) { auto k = r.getS(); w.knownSeen[k] += r.get<uint64_t>(); }
            return true;
        }

        struct Options
        {
            std::string id, sub, tier = "quick", out, replay;
            uint64_t seed = 1;
            int64_t cases = -1;
            double seconds = 0;
            int workers = 8;
            int64_t only = -1;
            bool list = false;
            double scale = 1;
            bool showAll = false;
            bool noshrink = false;
            std::string record; // development only: directory to store one shrunk replay per failure class
        };

        struct SubReport
        {
            std::string sub, rule;
            WorkerResult total;
            uint64_t planned = 0;
            double wall = 0;
            bool cutShort = false;
        };

        void saveReplay( const std::string& path, const Property& p, const Outcome& o, const std::vector<uint32_t>& tape,
                         const std::string& fp, const std::string& msg, bool thorough, uint64_t index )
        {
            std::ofstream f( path );
            f << "{\n \"property\": \"" << p.id << "\",\n \"sub\": \"" << p.sub << "\",\n \"fingerprint\": \"" << jsonEscape( fp )
              << "\",\n \"index\": " << index << ",\n \"thorough\": " << ( thorough ? "true" : "false" ) << ",\n \"tape\": [";
            for( size_t i = 0; i < tape.size(); ++i ) f << ( i ? "," : "" ) << tape[i];
            f << "],\n \"message\": \"" << jsonEscape( msg ) << "\",\n \"input\": \"" << jsonEscape( o.input.substr( 0, 200000 ) ) << "\"\n}\n";
        }
        bool parseReplay( const std::string& path, std::string& sub, std::string& fp, std::vector<uint32_t>& tape, uint64_t& index, bool& thorough )
        {
            std::string b = readFile( path );
            auto str = [&]( const std::string& key ) {
                auto p = b.find( "\"" + key + "\": \"" );
                if( p == std::string::npos ) return std::string();
                p += key.size() + 5;
                return b.substr( p, b.find( '"', p ) - p );
            };
            sub = str( "sub" );
            fp = str( "fingerprint" );
            auto p = b.find( "\"index\": " );
            index = p == std::string::npos ? 0 : strtoull( b.c_str() + p + 9, nullptr, 10 );
            thorough = b.find( "\"thorough\": true" ) != std::string::npos;
            p = b.find( "\"tape\": [" );
            if( p == std::string::npos ) return false;
            p += 9;
            while( p < b.size() && b[p] != ']' )
            {
                if( isdigit( (unsigned char)b[p] ) )
                {
                    char* e = nullptr;
                    tape.push_back( (uint32_t)strtoul( b.c_str() + p, &e, 10 ) );
                    p = e - b.c_str();
                }
                else ++p;
            }
            return true;
        }


        // ---- driving one sub-property ---------------------------------------------------------
        SubReport drive( const Property& p, const Options& o, const std::set<std::string>& known, bool thorough )
        {
            SubReport rep;
            rep.sub = p.sub;
            rep.rule = p.rule;
            uint64_t n = thorough ? p.thoroughCases : p.quickCases;
            if( !p.enumerated ) n = (uint64_t)std::max( 1.0, n * o.scale );
            if( o.cases >= 0 && !p.enumerated ) n = (uint64_t)o.cases;
            rep.planned = n;
            const int W = p.serial ? 1 : std::min<int>( o.workers, MAX_WORKERS );
            Slot* slots = (Slot*)mmap( nullptr, sizeof( Slot ) * MAX_WORKERS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
            const double t0 = now();
            const double deadline = o.seconds > 0 ? t0 + o.seconds : 0;
            std::vector<pid_t> pids( W, 0 );
            std::vector<uint64_t> nextIndex( W );
            std::vector<int> gen( W, 0 );
            uint64_t crashes = 0;
            auto resPath = [&]( int w, int g ) { return gScratch + "/w" + p.sub + std::to_string( w ) + "_" + std::to_string( g ); };
            auto spawn = [&]( int w ) {
                slots[w].busy = 0;
                fflush( nullptr );
                pid_t pid = fork();
                if( pid != 0 ) { pids[w] = pid; return; }
                childSetup( p, resPath( w, gen[w] ) + ".err" );
                WorkerResult r;
                double lastSave = now();
                for( uint64_t i = nextIndex[w]; i < n; i += W )
                {
                    if( deadline > 0 && now() > deadline ) { r.tags["stopped at the time limit"] = 1; break; }
                    slots[w].current = i;
                    slots[w].busy = 1;
                    Tape t( caseSeed( p, o.seed, i ) );
                    Ctx c;
                    c.thorough = thorough;
                    c.caseIndex = i;
                    armTimers( p.caseSeconds );
                    runOne( p, t, c );
                    armTimers( 0 );
                    slots[w].busy = 0;
                    ++r.cases;
                    r.evals += c.evals ? c.evals : 1;
                    for( auto& tg : c.tags ) r.tags[tg.first] += tg.second;
                    r.keys.insert( c.keys.begin(), c.keys.end() );
                    if( !c.inputText.empty() && !c.keys.empty() && r.samples.size() < 2 && c.inputText.size() < 6000 ) r.samples.push_back( c.inputText );
                    bool stop = false;
                    for( auto& f : c.failures )
                    {
                        if( known.count( f.fingerprint ) ) { ++r.knownSeen[f.fingerprint]; continue; }
                        if( r.failures.size() < 400 )
                        {
                            bool dup = false;
                            for( auto& x : r.failures ) dup |= x.fp == f.fingerprint;
                            if( !dup ) r.failures.push_back( { i, f.fingerprint, f.message } );
                        }
                        if( !o.showAll ) stop = true;
                    }
                    // completed cases must not be lost when a later one kills the worker
                    if( stop || now() - lastSave > 1 ) { slots[w].done = i + 1; save( r, resPath( w, gen[w] ) ); lastSave = now(); }
                    if( stop ) break;
                }
                save( r, resPath( w, gen[w] ) );
                _exit( 0 );
            };
            for( int w = 0; w < W; ++w )
            {
                slots[w].current = 0;
                slots[w].done = 0;
                slots[w].busy = 0;
                nextIndex[w] = w;
                spawn( w );
            }
            std::vector<WorkerResult::F> crashFailures;
            int alive = W;
            while( alive > 0 )
            {
                int status = 0;
                pid_t pid = waitpid( -1, &status, 0 );
                if( pid < 0 )
                {
                    if( errno == EINTR ) continue;
                    break;
                }
                for( int w = 0; w < W; ++w )
                {
                    if( pids[w] != pid ) continue;
                    std::string rm = "rm -rf '" + gScratch + "/p" + std::to_string( (long)pid ) + "'";
                    struct stat sb;
                    if( stat( ( gScratch + "/p" + std::to_string( (long)pid ) ).c_str(), &sb ) == 0 ) { int rc = system( rm.c_str() ); (void)rc; }
                    load( rep.total, resPath( w, gen[w] ) );
                    pids[w] = 0;
                    if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) { --alive; break; }
                    std::string msg;
                    std::string fp = fingerprintOfCrash( readFile( resPath( w, gen[w] ) + ".err" ), status, msg );
                    uint64_t idx = slots[w].current;
                    if( known.count( fp ) ) ++rep.total.knownSeen[fp];
                    else crashFailures.push_back( { idx, fp, msg } );
                    ++rep.total.cases;
                    ++rep.total.evals;
                    ++crashes;
                    nextIndex[w] = idx + W;
                    ++gen[w];
                    if( crashes < ( o.showAll ? 4000u : 40u ) || known.count( fp ) ) spawn( w );
                    else --alive;
                    break;
                }
            }
            for( auto& f : crashFailures ) rep.total.failures.push_back( f );
            rep.wall = now() - t0;
            rep.cutShort = rep.total.tags.count( "stopped at the time limit" ) > 0;
            munmap( slots, sizeof( Slot ) * MAX_WORKERS );
            return rep;
        }
    }

    int runMain( int argc, char** argv )
    {
        Options o;
        if( const char* e = getenv( "VERIF_SEED" ) ) o.seed = strtoull( e, nullptr, 10 );
        if( const char* e = getenv( "VERIF_TIER" ) ) o.tier = e;
        for( int i = 1; i < argc; ++i )
        {
            std::string a = argv[i];
            auto val = [&]() { return i + 1 < argc ? std::string( argv[++i] ) : std::string(); };
            if( a == "--tier" ) o.tier = val();
            else if( a == "--seed" ) o.seed = strtoull( val().c_str(), nullptr, 10 );
            else if( a == "--sub" ) o.sub = val();
            else if( a == "--out" ) o.out = val();
            else if( a == "--cases" ) o.cases = atoll( val().c_str() );
            else if( a == "--seconds" ) o.seconds = atof( val().c_str() );
            else if( a == "--workers" ) o.workers = atoi( val().c_str() );
            else if( a == "--replay" ) o.replay = val();
            else if( a == "--only" ) o.only = atoll( val().c_str() );
            else if( a == "--scale" ) o.scale = atof( val().c_str() );
            else if( a == "--record" ) { o.record = val(); o.showAll = true; }
            else if( a == "--all" ) o.showAll = true;
            else if( a == "--noshrink" ) o.noshrink = true;
            else if( a == "--list" ) o.list = true;
            else o.id = a;
        }
        if( o.list )
        {
            for( auto& p : registry() ) printf( "%s/%s\n", p.id.c_str(), p.sub.c_str() );
            return 0;
        }
        const bool thorough = o.tier == "thorough";
        char tmpl[] = "/tmp/mxverif.XXXXXX";
        if( !mkdtemp( tmpl ) ) { perror( "mkdtemp" ); return 2; }
        gScratch = tmpl;
        gMainPid = getpid();
        struct Cleanup
        {
            ~Cleanup()
            {
                if( getpid() != gMainPid || gScratch.compare( 0, 13, "/tmp/mxverif." ) != 0 ) return;
                std::string cmd = "rm -rf '" + gScratch + "'";
                int rc = system( cmd.c_str() );
                (void)rc;
            }
        } cleanup;

        if( !o.replay.empty() || o.only >= 0 )
        {
            std::string sub = o.sub, fp;
            std::vector<uint32_t> tape;
            uint64_t index = o.only >= 0 ? (uint64_t)o.only : 0;
            bool th = thorough;
            if( !o.replay.empty() && !parseReplay( o.replay, sub, fp, tape, index, th ) ) { fprintf( stderr, "bad replay file\n" ); return 2; }
            int rc = 0;
            for( auto& p : registry() )
            {
                if( p.id != o.id || ( !sub.empty() && p.sub != sub ) ) continue;
                Outcome r = runChild( p, o.replay.empty() ? nullptr : &tape, caseSeed( p, o.seed, index ), th, index );
                printf( "%s\n", r.input.c_str() );
                for( auto& f : r.failures )
                {
                    printf( "FAIL %s\n%s\n", f.fingerprint.c_str(), f.message.c_str() );
                    rc = 1;
                }
            }
            return rc;
        }

        const auto knownList = loadKnown( o.id );
        std::set<std::string> known;
        for( auto& k : knownList ) known.insert( k.fingerprint );
        const std::string outDir = verifDir() + "/out";
        mkdir( outDir.c_str(), 0755 );

        std::vector<SubReport> reports;
        const double t0 = now();
        int violations = 0;
        std::string violationsJson;
        bool any = false;
        for( auto& p : registry() )
        {
            if( p.id != o.id || ( !o.sub.empty() && p.sub != o.sub ) ) continue;
            any = true;
            SubReport rep = drive( p, o, known, thorough );
            fprintf( stderr, "%s/%s: %llu of %llu cases, %llu evaluations, %zu distinct non-trivial, %zu failures, %.1f s\n", p.id.c_str(), p.sub.c_str(),
                     (unsigned long long)rep.total.cases, (unsigned long long)rep.planned, (unsigned long long)rep.total.evals, rep.total.keys.size(), rep.total.failures.size(), rep.wall );
            // distinct fingerprints, lowest index first
            std::map<std::string, WorkerResult::F> byFp;
            for( auto& f : rep.total.failures )
            {
                auto it = byFp.find( f.fp );
                if( it == byFp.end() || f.index < it->second.index ) byFp[f.fp] = f;
            }
            if( !o.record.empty() )
            {
                int running = 0;
                for( auto& kv : byFp )
                {
                    if( running >= o.workers ) { wait( nullptr ); --running; }
                    char name[64];
                    snprintf( name, sizeof name, "%016llx.json", (unsigned long long)hash64( p.sub + kv.first ) );
                    const std::string path = o.record + "/" + name;
                    printf( "RECORD fingerprint=%s replay=%s\n", kv.first.c_str(), path.c_str() );
                    fflush( nullptr );
                    if( fork() == 0 )
                    {
                        resetShared();
                        const auto& f = kv.second;
                        Outcome r = runChild( p, nullptr, caseSeed( p, o.seed, f.index ), thorough, f.index );
                        uint64_t attempts = 0;
                        std::vector<uint32_t> tape = p.enumerated ? r.record : shrink( p, r.record, f.fp, thorough, f.index, 12, attempts );
                        Outcome x = runChild( p, &tape, 0, thorough, f.index );
                        std::string msg = f.msg;
                        for( auto& ff : x.failures ) if( ff.fingerprint == f.fp ) msg = ff.message;
                        saveReplay( path, p, x, tape, f.fp, msg, thorough, f.index );
                        _exit( 0 );
                    }
                    ++running;
                }
                while( wait( nullptr ) > 0 ) {}
                reports.push_back( rep );
                continue;
            }
            if( o.showAll )
            {
                for( auto& kv : byFp )
                    printf( "FAIL %s index=%llu\n%s\n----\n", kv.first.c_str(), (unsigned long long)kv.second.index, kv.second.msg.substr( 0, 1500 ).c_str() );
            }
            int reported = 0;
            double budget = 60;
            for( auto& kv : byFp )
            {
                if( reported >= 3 && violations > 0 ) break;
                if( o.showAll && o.noshrink ) break;
                const auto& f = kv.second;
                // replay three times before believing it
                int hits = 0;
                Outcome r;
                const int tries = p.flakyOk ? 20 : 3;
                for( int k = 0; k < tries; ++k )
                {
                    Outcome x = runChild( p, nullptr, caseSeed( p, o.seed, f.index ), thorough, f.index );
                    if( has( x, f.fp ) )
                    {
                        ++hits;
                        r = x;
                        if( p.flakyOk ) break;
                    }
                }
                bool confirmed = p.flakyOk ? true : hits == tries;
                std::vector<uint32_t> tape = r.record;
                uint64_t attempts = 0;
                if( hits > 0 && !p.flakyOk && !p.enumerated && !o.noshrink )
                {
                    const double s0 = now();
                    tape = shrink( p, tape, f.fp, thorough, f.index, std::max( 2.0, std::min( budget, 30.0 ) ), attempts );
                    budget -= now() - s0;
                    Outcome x = runChild( p, &tape, 0, thorough, f.index );
                    if( has( x, f.fp ) ) r = x;
                }
                std::string msg = f.msg;
                for( auto& ff : r.failures ) if( ff.fingerprint == f.fp ) msg = ff.message;
                char name[64];
                snprintf( name, sizeof name, "%s-%016llx.json", p.id.c_str(), (unsigned long long)hash64( p.sub + f.fp ) );
                const std::string path = outDir + "/" + name;
                saveReplay( path, p, r, tape, f.fp, msg, thorough, f.index );
                if( !confirmed )
                {
                    fprintf( stderr, "unconfirmed (%d of %d replays): %s %s\n", hits, tries, f.fp.c_str(), path.c_str() );
                    rep.total.tags["unconfirmed failures"]++;
                    continue;
                }
                ++violations;
                ++reported;
                printf( "VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str() );
                printf( "  sub=%s fingerprint=%s (case %llu, %llu shrink attempts)\n", p.sub.c_str(), f.fp.c_str(), (unsigned long long)f.index, (unsigned long long)attempts );
                std::string shown = msg.substr( 0, 1500 );
                printf( "  %s\n", shown.c_str() );
                fflush( stdout );
                violationsJson += std::string( violationsJson.empty() ? "" : ", " ) + "{\"fingerprint\": \"" + jsonEscape( f.fp ) + "\", \"replay\": \"" + jsonEscape( path ) + "\"}";
            }
            reports.push_back( rep );
        }
        if( !any ) { fprintf( stderr, "no such property\n" ); return 2; }

        // known findings: replay each listed input (in parallel: nothing was replayed by this process before
        // unless a violation was found, and every worker allocates its own shared memory)
        if( o.record.empty() && o.sub.empty() )
        {
            char* seen = (char*)mmap( nullptr, knownList.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
            fflush( nullptr );
            for( int w = 0; w < o.workers; ++w )
            {
                if( fork() != 0 ) continue;
                resetShared();
                for( size_t i = w; i < knownList.size(); i += o.workers )
                {
                    const auto& k = knownList[i];
                    std::string sub, fp;
                    std::vector<uint32_t> tape;
                    uint64_t index = 0;
                    bool th = false;
                    if( !parseReplay( verifDir() + "/" + k.replay, sub, fp, tape, index, th ) ) continue;
                    for( auto& p : registry() )
                    {
                        if( p.id != o.id || p.sub != sub ) continue;
                        if( has( runChild( p, &tape, 0, th, index ), k.fingerprint ) ) seen[i] = 1;
                    }
                }
                _exit( 0 );
            }
            while( wait( nullptr ) > 0 ) {}
            for( size_t i = 0; i < knownList.size(); ++i )
            {
                if( seen[i] ) printf( "KNOWN-FINDING: property=%s %s [%s]\n", o.id.c_str(), knownList[i].what.c_str(), knownList[i].fingerprint.c_str() );
            }
        }

        if( !o.out.empty() )
        {
            std::ofstream f( o.out );
            uint64_t ev = 0, nt = 0;
            for( auto& r : reports ) { ev += r.total.evals; nt += r.total.keys.size(); }
            f << "{\"evaluations\": " << ev << ", \"distinct_nontrivial\": " << nt << ", \"violations\": " << violations << ", \"violation_list\": [" << violationsJson
              << "], \"wall_s\": " << now() - t0 << ", \"subs\": [";
            bool first = true;
            for( auto& r : reports )
            {
                f << ( first ? "" : ", " ) << "\n {\"name\": \"" << r.sub << "\", \"rule\": \"" << jsonEscape( r.rule ) << "\", \"planned\": " << r.planned << ", \"cases\": " << r.total.cases
                  << ", \"evaluations\": " << r.total.evals << ", \"distinct_nontrivial\": " << r.total.keys.size() << ", \"wall_s\": " << r.wall << ", \"cut_short\": " << ( r.cutShort ? "true" : "false" ) << ",\n  \"tags\": {";
                bool ft = true;
                size_t shown = 0;
                for( auto& t : r.total.tags )
                {
                    if( ++shown > 400 ) break;
                    f << ( ft ? "" : ", " ) << "\"" << jsonEscape( t.first ) << "\": " << t.second;
                    ft = false;
                }
                f << "},\n  \"known_seen\": {";
                ft = true;
                for( auto& t : r.total.knownSeen ) { f << ( ft ? "" : ", " ) << "\"" << jsonEscape( t.first ) << "\": " << t.second; ft = false; }
                f << "},\n  \"samples\": [";
                ft = true;
                size_t ns = 0;
                for( auto& s : r.total.samples )
                {
                    if( ++ns > 4 ) break;
                    f << ( ft ? "" : ", " ) << "\"" << jsonEscape( s.substr( 0, 3000 ) ) << "\"";
                    ft = false;
                }
                f << "]}";
                first = false;
            }
            f << "]}\n";
        }
        return violations ? 1 : 0;
    }
}
