// A08, A09: the document collection, against a map from ids to independently built documents.
// The reference for a document is built without the collection: parsed or written by the layers
// underneath.  A08 runs histories of calls in one thread, A09 runs programs in several threads
// under ThreadSanitizer.
#include "common/docs.h"
#include "common/mxio.h"
#include "common/reflect.h"
#include "common/score.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/ScoreConversions.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/MovementTitle.h"
#include "mx/impl/ScoreReader.h"
#include "mx/impl/ScoreWriter.h"
#include <atomic>
#include <climits>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace mx;
using mx::api::DocumentManager;
using mx::api::ScoreData;

namespace
{
    DocumentManager& dm() { return DocumentManager::getInstance(); }

    // ---------------------------------------------------------------- what documents are made of
    struct Content
    {
        bool fromScore = false;
        std::string text; // MusicXML, when it is not from a score
        ScoreData score;
        std::string label;
    };
    // what is known about a document without asking the collection
    struct Expected
    {
        bool ok = false; // creating it succeeds
        core::DocumentPtr doc;
        std::string text;
        bool dataThrows = false;
        ScoreData data;

        void refresh()
        {
            text = mxio::save( *doc );
            dataThrows = false;
            data = ScoreData{};
            try
            {
                if( doc->getChoice() == core::DocumentChoice::timewise )
                {
                    const auto p = core::timewisePartwise( doc->getScoreTimewise() );
                    data = impl::ScoreReader( *p ).getScoreData();
                    data.musicXmlType = "timewise";
                }
                else data = impl::ScoreReader( *doc->getScorePartwise() ).getScoreData();
            }
            catch( const std::exception& ) { dataThrows = true; data = ScoreData{}; }
        }
    };
    Expected expected( const Content& k )
    {
        Expected e;
        if( k.fromScore )
        {
            try
            {
                impl::ScoreWriter w{ k.score };
                auto p = w.getScorePartwise();
                e.doc = core::makeDocument();
                e.doc->setChoice( core::DocumentChoice::partwise );
                e.doc->setScorePartwise( p );
                if( k.score.musicXmlType == "timewise" ) e.doc->convertContents();
                e.ok = true;
            }
            catch( const std::exception& ) {}
        }
        else
        {
            std::string message;
            e.ok = mxio::load( k.text, e.doc, message );
        }
        if( e.ok ) e.refresh();
        return e;
    }
    std::string tiny( int number, bool timewise )
    {
        const std::string n = std::to_string( number );
        const std::string head = "<movement-title>t" + n + "</movement-title><part-list><score-part id=\"P1\"><part-name>p" + n + "</part-name></score-part></part-list>";
        const std::string music = "<note><pitch><step>C</step><octave>" + std::to_string( number % 9 ) + "</octave></pitch><duration>" + std::to_string( 1 + number % 4 ) + "</duration></note>";
        const std::string at = "<attributes><divisions>" + std::to_string( 1 + number % 7 ) + "</divisions></attributes>";
        return timewise ? "<?xml version=\"1.0\"?><score-timewise version=\"3.0\">" + head + "<measure number=\"1\"><part id=\"P1\">" + at + music + "</part></measure></score-timewise>"
                        : "<?xml version=\"1.0\"?><score-partwise version=\"3.0\">" + head + "<part id=\"P1\"><measure number=\"1\">" + at + music + "</measure></part></score-partwise>";
    }
    ScoreData smallScore( pbt::Tape& t )
    {
        score::Opts o;
        o.maxParts = 2;
        o.maxMeasures = 2;
        o.maxStaves = 2;
        o.maxItems = 4;
        o.attachments = o.directions = o.measures = o.header = t.pick<int>( { 5, 20 } );
        ScoreData s = score::generate( t, o );
        // nothing that has to be invented when it is written
        int i = 0;
        for( auto& p : s.parts ) p.instrumentData.uniqueId = "I" + std::to_string( ++i );
        if( t.chance( 1, 5 ) ) s.musicXmlType = "timewise";
        return s;
    }
    Content content( pbt::Tape& t, pbt::Ctx& c, int number, bool cheap )
    {
        Content k;
        switch( t.weighted( { 4, (uint32_t)( cheap ? 2 : 4 ), 2, (uint32_t)( cheap ? 0 : 2 ) } ) )
        {
        case 0:
            k.label = "tiny";
            k.text = tiny( number, t.chance( 1, 4 ) );
            break;
        case 1:
            k.label = "score";
            k.fromScore = true;
            k.score = smallScore( t );
            break;
        case 2: // the text of a score
        {
            k.label = "text of a score";
            ScoreData s = smallScore( t );
            try
            {
                impl::ScoreWriter w{ s };
                auto d = core::makeDocument();
                d->setChoice( core::DocumentChoice::partwise );
                d->setScorePartwise( w.getScorePartwise() );
                if( s.musicXmlType == "timewise" ) d->convertContents();
                k.text = mxio::save( *d );
            }
            catch( const std::exception& ) { k.text = tiny( number, false ); }
            break;
        }
        default:
            k.label = "schema";
            k.text = xml::serialize( docs::fromSchema( t, c, 80 ) );
        }
        return k;
    }
    // text that is not a MusicXML document
    std::string broken( pbt::Tape& t )
    {
        std::string s = tiny( 3, t.coin() );
        switch( t.below( 8 ) )
        {
        case 0: return "";
        case 1: return s.substr( 0, t.below( (uint32_t)s.size() - 1 ) );
        case 2: return "<opus/>";
        case 3: return "not xml at all";
        case 4: return s.replace( s.find( "</duration>" ), 11, "</octave>" );
        case 5: return "<?xml version=\"1.0\"?><score-partwise version=\"3.0\"></score>";
        case 6: return "<container><rootfiles/></container>";
        default: return std::string( 1 + t.below( 20 ), '<' );
        }
    }

    // ------------------------------------------------------------------------------ A08
    struct Slot
    {
        int id = 0;
        bool alive = true;
        Expected want;
        core::DocumentPtr held; // what getDocument gave, kept beyond the end of the document's life
        std::string label;
    };
    int highestId = 0;       // over all cases of this process
    int highestUnique = INT_MIN;

    struct Histories
    {
        pbt::Tape& t;
        pbt::Ctx& c;
        std::vector<Slot> slots;
        std::string log, dir;
        int number = 0, checked = 0, features = 0;

        ~Histories() { for( auto& s : slots ) if( s.alive ) dm().destroyDocument( s.id ); }

        void fail( const std::string& fp, const std::string& m ) { c.fail( fp, m + "\nafter:\n" + log.substr( log.size() > 1500 ? log.size() - 1500 : 0 ) ); }
        std::string path( const std::string& name ) { return dir + "/" + name; }
        static bool exists( const std::string& p ) { struct stat st; return stat( p.c_str(), &st ) == 0; }

        // the next position to use among living documents, or -1
        int living()
        {
            std::vector<int> a;
            for( size_t i = 0; i < slots.size(); ++i ) if( slots[i].alive ) a.push_back( (int)i );
            return a.empty() ? -1 : a[t.below( (uint32_t)a.size() )];
        }
        int unknownId()
        {
            std::vector<int> dead;
            for( auto& s : slots ) if( !s.alive ) dead.push_back( s.id );
            if( !dead.empty() && t.chance( 2, 3 ) ) return dead[t.below( (uint32_t)dead.size() )];
            switch( t.below( 6 ) )
            {
            case 0: return -1;
            case 1: return 0;
            case 2: return highestId + 1 + (int)t.below( 1000 );
            case 3: return INT_MAX;
            case 4: return INT_MIN;
            default: return -(int)t.below( 100000 );
            }
        }

        // ------------------------------------------------------------- comparisons
        void text( Slot& s, const std::string& got, const char* how )
        {
            ++checked;
            if( got == s.want.text ) return;
            size_t i = 0;
            while( i < got.size() && i < s.want.text.size() && got[i] == s.want.text[i] ) ++i;
            fail( std::string( "text-" ) + how, "document " + std::to_string( s.id ) + " (" + s.label + ") is written differently from what was created: at byte " + std::to_string( i ) + " of " + std::to_string( s.want.text.size() ) + "/" + std::to_string( got.size() ) + ", expected ..." + s.want.text.substr( i, 60 ) + "... got ..." + got.substr( std::min( i, got.size() ), 60 ) );
        }
        void data( Slot& s )
        {
            ++checked;
            ScoreData d;
            bool threw = false;
            try { d = dm().getData( s.id ); }
            catch( const std::exception& ) { threw = true; }
            if( threw != s.want.dataThrows ) { fail( "data-throws", std::string( "extracting the data of document " ) + std::to_string( s.id ) + ( threw ? " throws" : " does not throw" ) ); return; }
            if( threw ) return;
            const auto diff = refl::differences( s.want.data, d );
            if( !diff.empty() ) fail( "data-differs", "the data of document " + std::to_string( s.id ) + " (" + s.label + ") differs: " + diff[0].path + ": " + diff[0].left + " / " + diff[0].right );
        }
        void stream( Slot& s )
        {
            std::ostringstream os;
            dm().writeToStream( s.id, os );
            text( s, os.str(), "stream" );
        }
        void file( Slot& s )
        {
            const std::string p = path( "out" + std::to_string( t.below( 2 ) ) + ".xml" );
            if( t.chance( 1, 2 ) ) { std::ofstream o( p ); o << std::string( s.want.text.size() + 5000, 'x' ); } // longer than what comes
            dm().writeToFile( s.id, p );
            text( s, exists( p ) ? pbt::readFile( p ) : std::string( "(no file)" ), "file" );
            unlink( p.c_str() );
        }
        void pointer( Slot& s )
        {
            ++checked;
            auto p = dm().getDocument( s.id );
            if( !p ) { fail( "document-null", "document " + std::to_string( s.id ) + " is not there" ); return; }
            if( s.held && s.held != p ) fail( "document-other", "document " + std::to_string( s.id ) + " is another object than before" );
            if( mxio::save( *p ) != s.want.text ) fail( "document-content", "document " + std::to_string( s.id ) + " (" + s.label + ") has another content" );
            s.held = p;
        }
        void gone( int id )
        {
            ++checked;
            const std::string n = "id " + std::to_string( id ) + ", which is not in use, ";
            const auto diff = refl::differences( ScoreData{}, dm().getData( id ) );
            if( !diff.empty() ) fail( "unknown-data", n + "gives data: " + diff[0].path );
            std::ostringstream os;
            dm().writeToStream( id, os );
            if( !os.str().empty() ) fail( "unknown-stream", n + "writes to a stream" );
            const std::string p = path( "none.xml" );
            dm().writeToFile( id, p );
            if( exists( p ) ) { unlink( p.c_str() ); fail( "unknown-file", n + "writes a file" ); }
            if( dm().getDocument( id ) ) fail( "unknown-document", n + "gives a document" );
        }

        // ------------------------------------------------------------- operations
        // returns false when creation was expected to fail and did
        void create( const std::string& how, const std::function<int()>& call, Expected want, const std::string& label )
        {
            int id = -1;
            bool threw = false;
            std::string why;
            try { id = call(); }
            catch( const std::exception& e ) { threw = true; why = e.what(); }
            log += how + " " + label + ( threw ? " -> throws\n" : " -> " + std::to_string( id ) + "\n" );
            if( threw )
            {
                if( want.ok ) fail( "create-throws", "creating a document (" + label + ") from a " + how + " throws " + why );
                return;
            }
            if( !want.ok )
            {
                fail( "create-accepts", "creating a document (" + label + ") from a " + how + " succeeds" );
                dm().destroyDocument( id );
                return;
            }
            ++checked;
            for( auto& s : slots ) if( s.id == id ) fail( "id-reused", "id " + std::to_string( id ) + " has been used before" );
            if( id <= 0 || id <= highestId ) fail( "id-order", "the new id " + std::to_string( id ) + " is not greater than " + std::to_string( highestId ) + ", which has been handed out" );
            highestId = std::max( highestId, id );
            Slot s;
            s.id = id;
            s.want = std::move( want );
            s.label = label;
            slots.push_back( std::move( s ) );
        }
        void createSomething()
        {
            Content k = content( t, c, ++number, false );
            Expected e = expected( k );
            if( k.fromScore )
            {
                ScoreData s = k.score;
                create( "score", [&]{ return dm().createFromScore( s ); }, std::move( e ), k.label );
                // what happens to the supplied data afterwards does not matter
                s.workTitle += "changed";
                s.parts.clear();
            }
            else if( t.coin() )
            {
                const std::string p = path( t.pick<const char*>( { "in.xml", "in.musicxml", "in", "in.mxl" } ) );
                { std::ofstream o( p, std::ios::binary ); o << k.text; }
                create( "file", [&]{ return dm().createFromFile( p ); }, std::move( e ), k.label );
                unlink( p.c_str() ); // the file is not needed any more
            }
            else
            {
                auto is = std::make_unique<std::istringstream>( k.text );
                create( "stream", [&]{ return dm().createFromStream( *is ); }, std::move( e ), k.label );
            }
        }
        void createBroken()
        {
            features |= 1;
            Expected none;
            const std::string b = broken( t );
            switch( t.below( 5 ) )
            {
            case 0: create( "file", [&]{ return dm().createFromFile( path( "missing.xml" ) ); }, none, "missing" ); break;
            case 1: create( "file", [&]{ return dm().createFromFile( "" ); }, none, "without a name" ); break;
            case 2:
            {
                const std::string p = path( t.coin() ? "bad.xml" : "bad.mxl" );
                { std::ofstream o( p, std::ios::binary ); o << b; }
                create( "file", [&]{ return dm().createFromFile( p ); }, none, "broken: " + b );
                unlink( p.c_str() );
                break;
            }
            case 3:
            {
                std::istringstream is( tiny( 1, false ) );
                is.setstate( std::ios::failbit );
                create( "stream", [&]{ return dm().createFromStream( is ); }, none, "in a failed state" );
                break;
            }
            default:
            {
                std::istringstream is( b );
                create( "stream", [&]{ return dm().createFromStream( is ); }, none, "broken: " + b );
            }
            }
        }
        // a destination that refuses what is written
        struct Refusing : std::streambuf
        {
            long left;
            explicit Refusing( long n ) : left( n ) {}
            int overflow( int ch ) override { return left-- > 0 ? ch : traits_type::eof(); }
            std::streamsize xsputn( const char*, std::streamsize n ) override { const auto k = std::min<std::streamsize>( n, std::max( 0l, left ) ); left -= k; return k; }
        };
        void writeBadly( Slot& s )
        {
            features |= 2;
            log += "write " + std::to_string( s.id ) + " to a destination that fails\n";
            try
            {
                if( t.coin() ) dm().writeToFile( s.id, path( "missing/out.xml" ) );
                else
                {
                    Refusing b( (long)t.below( 400 ) );
                    std::ostream os( &b );
                    if( t.coin() ) os.exceptions( std::ios::badbit | std::ios::failbit );
                    dm().writeToStream( s.id, os );
                }
            }
            catch( const std::exception& ) {}
        }
        void edit( Slot& s )
        {
            auto p = dm().getDocument( s.id );
            if( !p ) { fail( "document-null", "document " + std::to_string( s.id ) + " is not there" ); return; }
            features |= 4;
            s.held = p;
            if( t.coin() )
            {
                log += "convert " + std::to_string( s.id ) + "\n";
                p->convertContents();
                s.want.doc->convertContents();
            }
            else
            {
                log += "edit " + std::to_string( s.id ) + "\n";
                const std::string title = "edited" + std::to_string( ++number );
                for( auto& d : { p, s.want.doc } )
                {
                    auto h = d->getChoice() == core::DocumentChoice::timewise ? d->getScoreTimewise()->getScoreHeaderGroup() : d->getScorePartwise()->getScoreHeaderGroup();
                    h->setHasMovementTitle( true );
                    h->getMovementTitle()->setValue( core::XsString( title ) );
                }
            }
            s.want.refresh();
        }
        void unique()
        {
            const int u = dm().getUniqueId();
            log += "unique " + std::to_string( u ) + "\n";
            ++checked;
            if( u <= highestUnique ) fail( "unique-order", "unique id " + std::to_string( u ) + " after " + std::to_string( highestUnique ) );
            highestUnique = std::max( u, highestUnique );
        }
        void destroy( Slot& s )
        {
            log += "destroy " + std::to_string( s.id ) + "\n";
            dm().destroyDocument( s.id );
            s.alive = false;
        }
        void run()
        {
            static int dirs = 0;
            dir = pbt::scratchDir() + "/h" + std::to_string( dirs++ % 4 );
            mkdir( dir.c_str(), 0777 );
            const int steps = t.range( 3, 40 );
            for( int i = 0; i < steps && !c.failed(); ++i )
            {
                int k;
                switch( t.weighted( { 6, 5, 5, 4, 4, 3, 3, 3, 2, 2, 2, 1 } ) )
                {
                case 0: createSomething(); break;
                case 1: if( ( k = living() ) >= 0 ) { log += "stream " + std::to_string( slots[k].id ) + "\n"; stream( slots[k] ); } break;
                case 2: if( ( k = living() ) >= 0 ) { log += "data " + std::to_string( slots[k].id ) + "\n"; data( slots[k] ); } break;
                case 3: if( ( k = living() ) >= 0 ) { log += "file " + std::to_string( slots[k].id ) + "\n"; file( slots[k] ); } break;
                case 4: if( ( k = living() ) >= 0 ) destroy( slots[k] ); break;
                case 5: if( ( k = living() ) >= 0 ) { log += "document " + std::to_string( slots[k].id ) + "\n"; pointer( slots[k] ); } break;
                case 6: { const int id = unknownId(); log += "unknown " + std::to_string( id ) + "\n"; gone( id ); features |= 8; break; }
                case 7: { const int id = unknownId(); log += "destroy unknown " + std::to_string( id ) + "\n"; dm().destroyDocument( id ); features |= 8; break; }
                case 8: createBroken(); break;
                case 9: if( ( k = living() ) >= 0 ) edit( slots[k] ); break;
                case 10: unique(); break;
                default: if( ( k = living() ) >= 0 ) writeBadly( slots[k] );
                }
            }
            // in the end everything is still what it was
            for( auto& s : slots )
            {
                if( c.failed() ) break;
                if( s.alive )
                {
                    log += "finally " + std::to_string( s.id ) + "\n";
                    stream( s );
                    pointer( s );
                    data( s );
                }
                else
                {
                    log += "finally gone " + std::to_string( s.id ) + "\n";
                    gone( s.id );
                    if( s.held && mxio::save( *s.held ) != s.want.text ) fail( "held-changed", "a document held beyond its destruction has another content" );
                }
            }
        }
    };
    void a08( pbt::Tape& t, pbt::Ctx& c )
    {
        Histories h{ t, c, {}, {}, {} };
        h.run();
        c.input( h.log );
        c.evaluations( 1 );
        int dead = 0;
        for( auto& s : h.slots ) dead += !s.alive;
        c.tag( "documents", h.slots.size() );
        c.tag( "comparisons", (uint64_t)h.checked );
        for( int b = 0; b < 4; ++b ) if( h.features >> b & 1 ) c.tag( std::vector<const char*>{ "with failing creations", "with failing writes", "with edits", "with unknown ids" }[b] );
        if( h.slots.size() >= 2 && dead && h.checked >= 3 ) c.nontrivial( h.log );
    }
    PBT_PROPERTY( pbt::Property{ "A08", "histories", "two or more documents, one or more destroyed, three or more comparisons; distinct by the history", a08, 5000, 150000 } );

    // ------------------------------------------------------------------------------ A09
    enum class Op { createStream, createFile, createScore, createBad, stream, file, data, document, destroy, unique, unknown, nap };
    struct Step
    {
        Op op;
        int what = 0;   // content to create, or which document: own ones count from 0, shared ones from -1 down
        int arg = 0;
    };
    struct Program
    {
        std::vector<Step> steps;
    };
    struct Observation
    {
        int step = 0;
        bool threw = false, null = false, fileThere = true;
        int id = 0;          // a created document, or a unique id
        std::string text;
        ScoreData data;
    };
    struct World
    {
        std::vector<Content> contents;
        std::vector<int> sharedContent; // what the shared documents hold
        std::vector<Program> programs;
        std::string bad, log, dir;
    };
    World world( pbt::Tape& t, pbt::Ctx& c )
    {
        World w;
        const int n = t.range( 1, 4 );
        for( int i = 0; i < n; ++i ) w.contents.push_back( content( t, c, i + 1, true ) );
        const int shared = t.range( 0, 3 );
        for( int i = 0; i < shared; ++i ) w.sharedContent.push_back( (int)t.below( (uint32_t)n ) );
        w.bad = broken( t );
        const int threads = t.range( 2, 4 );
        for( int i = 0; i < threads; ++i )
        {
            Program p;
            int own = 0;
            const int steps = t.range( 2, 14 );
            for( int k = 0; k < steps; ++k )
            {
                Step s{ Op::nap, 0, 0 };
                const bool toShared = shared && ( !own || t.chance( 1, 2 ) );
                const int target = toShared ? -1 - (int)t.below( (uint32_t)shared ) : own ? (int)t.below( (uint32_t)own ) : 0;
                const bool any = toShared || own;
                switch( t.weighted( { 5, 4, 4, 2, 2, 2, 2, 1, 1 } ) )
                {
                case 0:
                    s.what = (int)t.below( (uint32_t)n );
                    s.op = w.contents[s.what].fromScore ? Op::createScore : t.chance( 1, 3 ) ? Op::createFile : Op::createStream;
                    ++own;
                    break;
                case 1: if( any ) s = { Op::stream, target, 0 }; break;
                case 2: if( any ) s = { Op::data, target, 0 }; break;
                case 3: if( any ) s = { Op::destroy, target, 0 }; break;
                case 4: s = { Op::unique, 0, 0 }; break;
                case 5: if( any ) s = { Op::file, target, 0 }; break;
                case 6: if( any ) s = { Op::document, target, 0 }; break;
                case 7: s = { Op::createBad, 0, 0 }; break;
                default: s = { Op::unknown, 0, -(int)t.below( 5 ) }; break;
                }
                s.arg = s.op == Op::unknown ? s.arg : (int)t.below( 4 ); // how long to wait before it
                p.steps.push_back( s );
            }
            w.programs.push_back( p );
        }
        static const char* names[] = { "createFromStream", "createFromFile", "createFromScore", "create broken", "writeToStream", "writeToFile", "getData", "getDocument", "destroyDocument", "getUniqueId", "unknown id", "nap" };
        for( size_t i = 0; i < w.contents.size(); ++i ) w.log += "content " + std::to_string( i ) + ": " + w.contents[i].label + "\n";
        for( size_t i = 0; i < w.sharedContent.size(); ++i ) w.log += "shared document " + std::to_string( i ) + " holds content " + std::to_string( w.sharedContent[i] ) + "\n";
        for( size_t i = 0; i < w.programs.size(); ++i )
        {
            w.log += "thread " + std::to_string( i ) + ":";
            for( auto& s : w.programs[i].steps ) w.log += std::string( " " ) + names[(int)s.op] + "(" + ( s.what < 0 ? "shared " + std::to_string( -1 - s.what ) : std::to_string( s.what ) ) + ")";
            w.log += "\n";
        }
        return w;
    }
    struct Run
    {
        std::vector<int> shared; // ids
        std::vector<std::vector<Observation>> seen;
        std::vector<std::vector<int>> own;
    };
    int createOne( const Content& k, bool file, const std::string& p )
    {
        if( k.fromScore ) return dm().createFromScore( k.score );
        if( file )
        {
            { std::ofstream o( p, std::ios::binary ); o << k.text; }
            const int id = dm().createFromFile( p );
            unlink( p.c_str() );
            return id;
        }
        std::istringstream is( k.text );
        return dm().createFromStream( is );
    }
    Run execute( const World& w, bool cold )
    {
        Run r;
        if( !cold || !w.sharedContent.empty() )
            for( int k : w.sharedContent )
            {
                int id = -1;
                try { id = createOne( w.contents[k], false, "" ); } catch( const std::exception& ) {}
                r.shared.push_back( id );
            }
        const size_t n = w.programs.size();
        r.seen.resize( n );
        r.own.resize( n );
        std::atomic<int> waiting{ (int)n };
        std::vector<std::thread> threads;
        for( size_t i = 0; i < n; ++i )
            threads.emplace_back( [&, i]
            {
                waiting.fetch_sub( 1, std::memory_order_relaxed );
                while( waiting.load( std::memory_order_relaxed ) > 0 ) {}
                auto& seen = r.seen[i];
                auto& own = r.own[i];
                const std::string mine = w.dir + "/t" + std::to_string( i );
                for( size_t k = 0; k < w.programs[i].steps.size(); ++k )
                {
                    const Step& s = w.programs[i].steps[k];
                    if( s.op != Op::unknown )
                    {
                        if( s.arg == 2 ) std::this_thread::yield();
                        if( s.arg == 3 ) usleep( 50 );
                    }
                    Observation o;
                    o.step = (int)k;
                    const int id = s.what < 0 ? r.shared[-1 - s.what] : s.what < (int)own.size() ? own[s.what] : -1;
                    try
                    {
                        switch( s.op )
                        {
                        case Op::createStream: case Op::createFile: case Op::createScore:
                            own.push_back( -1 );
                            o.id = createOne( w.contents[s.what], s.op == Op::createFile, mine + ".in.xml" );
                            own.back() = o.id;
                            break;
                        case Op::createBad:
                        {
                            std::istringstream is( w.bad );
                            o.id = dm().createFromStream( is );
                            break;
                        }
                        case Op::stream: case Op::unknown:
                        {
                            std::ostringstream os;
                            dm().writeToStream( s.op == Op::unknown ? s.arg : id, os );
                            o.text = os.str();
                            break;
                        }
                        case Op::file:
                        {
                            const std::string p = mine + ".out.xml";
                            dm().writeToFile( id, p );
                            o.fileThere = access( p.c_str(), F_OK ) == 0;
                            if( o.fileThere ) { o.text = pbt::readFile( p ); unlink( p.c_str() ); }
                            break;
                        }
                        case Op::data: o.data = dm().getData( id ); break;
                        case Op::document: o.null = !dm().getDocument( id ); break;
                        case Op::destroy: dm().destroyDocument( id ); break;
                        case Op::unique: o.id = dm().getUniqueId(); break;
                        case Op::nap: break;
                        }
                    }
                    catch( const std::exception& ) { o.threw = true; }
                    seen.push_back( std::move( o ) );
                }
            } );
        for( auto& th : threads ) th.join();
        return r;
    }
    // what the threads saw against what some order of the calls explains
    void judge( const World& w, const Run& r, pbt::Ctx& c )
    {
        std::vector<Expected> want;
        for( auto& k : w.contents ) want.push_back( expected( k ) );
        const auto fail = [&]( const std::string& fp, const std::string& m ) { c.fail( fp, m + "\n" + w.log ); };
        std::set<int> ids;
        int highest = 0;
        for( int s : r.shared ) if( s > 0 ) { ids.insert( s ); highest = std::max( highest, s ); }
        std::set<int> uniques;
        std::vector<std::set<size_t>> destroyers( w.sharedContent.size() );
        for( size_t i = 0; i < w.programs.size(); ++i )
            for( auto& s : w.programs[i].steps )
                if( s.op == Op::destroy && s.what < 0 ) destroyers[-1 - s.what].insert( i );
        for( size_t i = 0; i < w.programs.size(); ++i )
        {
            int lastId = highest, lastUnique = INT_MIN;
            std::vector<int> ownContent;
            std::vector<bool> ownAlive;
            std::vector<bool> sharedGone( w.sharedContent.size(), false ); // this thread knows it is
            for( auto& o : r.seen[i] )
            {
                const Step& s = w.programs[i].steps[o.step];
                const std::string who = "thread " + std::to_string( i ) + ", step " + std::to_string( o.step ) + ": ";
                const Expected* e = nullptr;
                bool mayBeThere = false, mayBeGone = false;
                if( s.op >= Op::stream && s.op <= Op::document )
                {
                    if( s.what < 0 )
                    {
                        const int k = -1 - s.what;
                        e = &want[w.sharedContent[k]];
                        mayBeThere = e->ok && !sharedGone[k];
                        mayBeGone = !e->ok || sharedGone[k] || destroyers[k].size() > ( destroyers[k].count( i ) ? 1u : 0u );
                    }
                    else if( s.what < (int)ownContent.size() )
                    {
                        e = &want[ownContent[s.what]];
                        mayBeThere = e->ok && ownAlive[s.what];
                        mayBeGone = !mayBeThere;
                    }
                    else mayBeGone = true;
                }
                bool there = false, gone = false; // what the observation says
                switch( s.op )
                {
                case Op::createStream: case Op::createFile: case Op::createScore:
                    ownContent.push_back( s.what );
                    ownAlive.push_back( true );
                    if( o.threw == want[s.what].ok ) fail( "create-outcome", who + ( o.threw ? "creating the document throws" : "creating the document succeeds" ) );
                    if( o.threw ) break;
                    if( !ids.insert( o.id ).second ) fail( "id-reused", who + "id " + std::to_string( o.id ) + " has been handed out twice" );
                    if( o.id <= lastId ) fail( "id-order", who + "id " + std::to_string( o.id ) + " after " + std::to_string( lastId ) );
                    lastId = o.id;
                    break;
                case Op::createBad: if( !o.threw ) fail( "bad-accepted", who + "a broken document is accepted" ); break;
                case Op::unknown: if( !o.text.empty() || o.threw ) fail( "unknown", who + "an unknown id writes something" ); break;
                case Op::stream: case Op::file:
                    if( o.threw ) { fail( "throws", who + "writing throws" ); break; }
                    gone = o.text.empty() && ( s.op == Op::stream || !o.fileThere );
                    there = e && e->ok && o.text == e->text && o.fileThere;
                    if( !gone && !there ) fail( "text", who + "the text is neither that of the document nor empty" );
                    break;
                case Op::data:
                {
                    static const ScoreData nothing;
                    if( o.threw ) there = e && e->dataThrows;
                    else
                    {
                        gone = refl::differences( nothing, o.data ).empty();
                        there = e && e->ok && !e->dataThrows && refl::differences( e->data, o.data ).empty();
                    }
                    if( !gone && !there ) fail( "data", who + "the data is neither that of the document nor empty" );
                    break;
                }
                case Op::document: gone = o.null; there = !o.null; break;
                case Op::destroy:
                    if( s.what < 0 ) sharedGone[-1 - s.what] = true;
                    else if( s.what < (int)ownAlive.size() ) ownAlive[s.what] = false;
                    if( o.threw ) fail( "throws", who + "destroying throws" );
                    break;
                case Op::unique:
                    if( o.id <= lastUnique ) fail( "unique-order", who + "unique id " + std::to_string( o.id ) + " after " + std::to_string( lastUnique ) );
                    if( !uniques.insert( o.id ).second ) fail( "unique-twice", who + "unique id " + std::to_string( o.id ) + " has been handed out twice" );
                    lastUnique = o.id;
                    break;
                default: break;
                }
                if( s.op >= Op::stream && s.op <= Op::document && ( there || gone ) )
                {
                    if( there && !gone && !mayBeThere ) fail( "not-destroyed", who + "a document is there which was destroyed or never existed" );
                    if( gone && !there && !mayBeGone ) fail( "lost", who + "a document is gone which nobody destroyed" );
                    if( gone && !there && s.what < 0 ) sharedGone[-1 - s.what] = true;
                }
            }
            // afterwards the documents left over are intact
            for( size_t k = 0; k < r.own[i].size(); ++k )
            {
                if( r.own[i][k] < 0 ) continue;
                std::ostringstream os;
                dm().writeToStream( r.own[i][k], os );
                const std::string expect = ownAlive[k] ? want[ownContent[k]].text : std::string();
                if( os.str() != expect ) fail( "left-over", "document " + std::to_string( k ) + " of thread " + std::to_string( i ) + " is not what it should be in the end" );
            }
        }
        for( size_t k = 0; k < r.shared.size(); ++k )
        {
            if( r.shared[k] < 0 ) continue;
            std::ostringstream os;
            dm().writeToStream( r.shared[k], os );
            if( os.str() != ( destroyers[k].empty() ? want[w.sharedContent[k]].text : std::string() ) ) fail( "left-over-shared", "shared document " + std::to_string( k ) + " is not what it should be in the end" );
        }
    }
    void release( const Run& r )
    {
        for( int s : r.shared ) dm().destroyDocument( s );
        for( auto& o : r.own ) for( int s : o ) dm().destroyDocument( s );
    }
    void describe( const World& w, pbt::Ctx& c )
    {
        c.input( w.log );
        size_t steps = 0;
        bool shared = false;
        for( auto& p : w.programs )
        {
            steps += p.steps.size();
            for( auto& s : p.steps ) shared = shared || ( s.what < 0 && s.op != Op::nap );
        }
        c.tag( "threads", w.programs.size() );
        c.tag( "calls", steps );
        if( shared ) c.tag( "with shared documents" );
        if( steps >= 8 ) c.nontrivial( w.log );
    }
    void threads( pbt::Tape& t, pbt::Ctx& c )
    {
        World w = world( t, c );
        w.dir = pbt::scratchDir();
        const Run r = execute( w, false );
        judge( w, r, c );
        release( r );
        describe( w, c );
    }
    // the same in a process in which nothing of the library has run before
    void coldStart( pbt::Tape& t, pbt::Ctx& c )
    {
        World w = world( t, c );
        w.dir = pbt::scratchDir();
        describe( w, c );
        int fd[2];
        if( pipe( fd ) ) throw pbt::Discard{};
        const pid_t pid = fork();
        if( pid < 0 ) throw pbt::Discard{};
        if( pid == 0 )
        {
            close( fd[0] );
            alarm( 60 );
            const Run r = execute( w, true );
            pbt::Ctx inner;
            judge( w, r, inner );
            std::string out;
            for( auto& f : inner.failures ) { out = f.fingerprint + "\n" + f.message; break; }
            out += "\nEND";
            size_t at = 0;
            while( at < out.size() )
            {
                const ssize_t k = write( fd[1], out.data() + at, out.size() - at );
                if( k <= 0 ) break;
                at += (size_t)k;
            }
            _exit( 0 );
        }
        close( fd[1] );
        std::string got;
        char buf[4096];
        ssize_t k;
        while( ( k = read( fd[0], buf, sizeof buf ) ) > 0 ) got.append( buf, (size_t)k );
        close( fd[0] );
        int status = 0;
        waitpid( pid, &status, 0 );
        if( WIFSIGNALED( status ) ) { c.fail( WTERMSIG( status ) == SIGALRM ? "cold-deadlock" : "cold-crash", "a process whose first calls come from several threads ended with signal " + std::to_string( WTERMSIG( status ) ) + "\n" + w.log ); return; }
        if( WEXITSTATUS( status ) ) { c.fail( WEXITSTATUS( status ) == 79 ? "cold-data-race" : "cold-crash", "a process whose first calls come from several threads ended with code " + std::to_string( WEXITSTATUS( status ) ) + "\n" + w.log ); return; }
        if( got.size() < 4 || got.substr( got.size() - 4 ) != "\nEND" ) { c.fail( "cold-crash", "no result\n" + w.log ); return; }
        got.resize( got.size() - 4 );
        if( !got.empty() )
        {
            const auto nl = got.find( '\n' );
            c.fail( "cold-" + got.substr( 0, nl ), got.substr( nl + 1 ) );
        }
    }
    PBT_PROPERTY( pbt::Property{ "A09", "threads", "eight or more calls in two or more threads; distinct by the programs", threads, 2500, 60000, 60, false, false, true } );
    PBT_PROPERTY( pbt::Property{ "A09", "cold-start", "eight or more calls in two or more threads; distinct by the programs", coldStart, 400, 10000, 60, false, false, true } );
}
