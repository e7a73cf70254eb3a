// R02, A06, A11: extracting score data from documents
#include "common/docs.h"
#include "common/mxio.h"
#include "common/score.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <algorithm>
#include <cstdio>
#include <map>
#include <set>
#include <sstream>
using namespace mx::api;

namespace
{
    struct Doc
    {
        int id = 0;
        explicit Doc( int i ) : id( i ) {}
        Doc( const Doc& ) = delete;
        ~Doc() { DocumentManager::getInstance().destroyDocument( id ); }
    };
    DocumentManager& dm() { return DocumentManager::getInstance(); }
    std::string write( int id )
    {
        std::ostringstream os;
        dm().writeToStream( id, os );
        return os.str();
    }
    int open( const std::string& text )
    {
        std::istringstream is( text );
        return dm().createFromStream( is );
    }
    // the class of an exception's text: without the particular values
    std::string what( const std::exception& e )
    {
        std::string s = e.what(), o;
        for( char ch : s.substr( 0, 160 ) )
            if( isdigit( (unsigned char)ch ) ) { if( o.empty() || o.back() != '#' ) o += '#'; }
            else o += ch == '\n' ? ' ' : ch;
        return o;
    }
    // the data of every staff takes memory, so the number of staves is kept small
    void fewStaves( xml::Node& n )
    {
        if( ( n.name == "staff" || n.name == "staves" ) && n.kids.empty() && strtold( n.text.c_str(), nullptr ) > 500 ) n.text = "500";
        for( auto& k : n.kids ) fewStaves( k );
    }

    std::string input( pbt::Tape& t, pbt::Ctx& c, bool mutations )
    {
        xml::Node n;
        const int kind = (int)t.weighted( { 5, 3, 2 } );
        if( kind == 0 ) n = docs::fromSchema( t, c );
        else if( kind == 1 )
        {
            auto p = xml::parse( docs::sample( t, c, 24000 ) );
            if( !p.ok ) throw pbt::Discard{};
            n = p.root;
        }
        else
        {
            score::Opts o;
            o.attachments = o.directions = o.measures = o.header = 30;
            o.maxMeasures = 3;
            std::string x;
            auto s = score::generate( t, o );
            auto p = xml::parse( score::write( s ) );
            if( !p.ok ) throw pbt::Discard{};
            n = p.root;
            c.tag( "score" );
        }
        if( mutations )
        {
            const int edits = t.pick<int>( { 0, 1, 2, 4, 8, 20 } );
            docs::mutate( t, n, edits );
        }
        fewStaves( n );
        return xml::serialize( n );
    }

    void r02( pbt::Tape& t, pbt::Ctx& c )
    {
        const std::string text = input( t, c, t.chance( 3, 4 ) );
        c.input( text );
        int id;
        try { id = open( text ); }
        catch( const std::exception& ) { c.tag( "rejected" ); throw pbt::Discard{}; }
        Doc doc( id );
        const bool timewise = dm().getDocument( id )->getChoice() == mx::core::DocumentChoice::timewise;
        const std::string before = write( id );
        ScoreData data;
        bool have = false;
        try
        {
            data = dm().getData( id );
            have = true;
        }
        catch( const std::exception& e ) { c.tag( "threw" ); c.tag( "threw: " + what( e ).substr( 0, 60 ) ); }
        catch( ... ) { c.fail( "not-a-standard-exception", "extraction threw something not derived from std::exception\n" ); }
        const std::string after = write( id );
        if( after != before ) c.fail( have ? "document-changed" : "document-changed-by-failed-extraction", "the document writes differently after its data was extracted\n" );
        if( ( dm().getDocument( id )->getChoice() == mx::core::DocumentChoice::timewise ) != timewise ) c.fail( have ? "organisation-changed" : "organisation-changed-by-failed-extraction", "a timewise document is not timewise any more (or the reverse)\n" );
        if( have )
        {
            c.nontrivial( text );
            try
            {
                Doc again( dm().createFromScore( data ) );
                c.tag( "created" );
                const std::string w = write( again.id );
                auto p = xml::parse( w );
                if( !p.ok ) c.fail( "not-well-formed", "the document created from the extracted data is not well-formed: " + p.error + "\n" );
            }
            catch( const std::exception& e ) { c.tag( "create threw" ); c.tag( "create threw: " + what( e ).substr( 0, 60 ) ); }
            catch( ... ) { c.fail( "not-a-standard-exception", "creating from extracted data threw something not derived from std::exception\n" ); }
        }
    }

    // The order of marks on a note, and of directions at one time, is not kept: the writer groups
    // marks by kind and puts directions of the same time in the order of the voices. Voice numbers
    // that were left out are filled in. Directions without any content are not written.
    template <class X> std::string key( const X& x )
    {
        std::string o;
        for( auto& l : refl::flatten( x ) ) o += l.first + "=" + l.second + ";";
        return o;
    }
    template <class X> void sorted( std::vector<X>& v )
    {
        std::vector<std::pair<std::string, X>> k;
        for( auto& x : v ) k.emplace_back( key( x ), x );
        std::stable_sort( k.begin(), k.end(), []( auto& a, auto& b ) { return a.first < b.first; } );
        for( size_t i = 0; i < v.size(); ++i ) v[i] = k[i].second;
    }
    // a tie that is given as sounding and not drawn, or the reverse, gets or loses the plain curve
    template <class X> void noPlainTies( std::vector<X>& v )
    {
        v.erase( std::remove_if( v.begin(), v.end(), []( const X& x ) { return x.curveType == CurveType::tie && key( x ) == key( X{ CurveType::tie } ); } ), v.end() );
    }
    bool hasContent( const DirectionData& d )
    {
        return !d.marks.empty() || !d.wedgeStarts.empty() || !d.wedgeStops.empty() || !d.ottavaStarts.empty() || !d.ottavaStops.empty() || !d.bracketStarts.empty() || !d.bracketStops.empty() || !d.words.empty() || !d.chords.empty() || !d.tempos.empty() || !d.rehearsals.empty() || !d.segnos.empty() || !d.codas.empty();
    }
    void normalise( ScoreData& s )
    {
        s.musicXmlType = "";
        for( auto& p : s.parts )
            for( auto& m : p.measures )
                for( auto& st : m.staves )
                {
                    auto& d = st.directions;
                    d.erase( std::remove_if( d.begin(), d.end(), []( const DirectionData& x ) { return !hasContent( x ); } ), d.end() );
                    sorted( d );
                    for( auto& v : st.voices )
                        for( auto& n : v.second.notes )
                        {
                            sorted( n.noteAttachmentData.marks );
                            noPlainTies( n.noteAttachmentData.curveStarts );
                            noPlainTies( n.noteAttachmentData.curveStops );
                            n.userRequestedVoiceNumber = -1;
                        }
                }
    }

    // saves and opens again; false when the data was not accepted
    bool cycle( pbt::Ctx& c, const ScoreData& s, score::Way w, ScoreData& r, std::string& x )
    {
        try { r = score::trip( s, w, x ); return true; }
        catch( const std::exception& e ) { c.fail( std::string( e.what() ).find( "Only beatsPerMinute and tempoText are supported" ) != std::string::npos ? "metronome-modulation" : "exception: " + what( e ), std::string( "extracted data is not accepted: " ) + e.what() + "\n" ); }
        return false;
    }
    // the kinds of marks whose number differs on the note that the path is about
    std::vector<std::string> lostMarks( const ScoreData& a, const ScoreData& b, const std::string& path )
    {
        int p, m, st, v, n;
        if( std::sscanf( path.c_str(), "parts[%d].measures[%d].staves[%d].voices{%d}.notes[%d].", &p, &m, &st, &v, &n ) != 5 ) return { "?" };
        std::map<int, int> count;
        const auto add = [&]( const ScoreData& s, int by )
        {
            for( auto& k : s.parts.at( p ).measures.at( m ).staves.at( st ).voices.at( v ).notes.at( n ).noteAttachmentData.marks ) count[(int)k.markType] += by;
        };
        add( a, 1 );
        add( b, -1 );
        std::vector<std::string> o;
        for( auto& k : count ) if( k.second ) o.push_back( k.first == (int)MarkType::nonArpeggiate ? "nonArpeggiate" : std::to_string( k.first ) );
        return o;
    }
    void report( pbt::Ctx& c, ScoreData a, ScoreData b, const std::string& prefix, const std::string& how )
    {
        normalise( a );
        normalise( b );
        size_t n = 0;
        for( auto& d : refl::differences( a, b ) )
        {
            // one note of a chord that is split over staves
            if( d.field() == "parts.measures.staves.voices.notes.isChord" ) continue;
            // taken from the tuplet when left out
            if( d.field() == "parts.measures.staves.voices.notes.durationData.timeModificationNormalType" && d.left == "#0" ) continue;
            if( d.field() == "parts.measures.staves.voices.notes.durationData.timeModificationNormalTypeDots" && d.left == "0" ) continue;
            // a bar style without a counterpart
            if( d.field() == "parts.measures.barlines.barlineType" && d.left == "#" + std::to_string( (int)BarlineType::unsupported ) ) continue;
            if( d.field() == "parts.measures.staves.voices.notes.noteAttachmentData.marks#" )
            {
                for( auto& k : lostMarks( a, b, d.path ) ) c.fail( prefix + "mark-" + k, how + d.path + ": mark of kind " + k + " was " + d.left + " before, " + d.right + " after\n" );
                continue;
            }
            c.fail( prefix + d.field(), how + d.path + ": " + d.left + " before, " + d.right + " after\n" );
            if( ++n > 30 ) break;
        }
    }

    // groups that have the same number cannot be told apart when they overlap
    bool sameGroupNumbers( const ScoreData& s )
    {
        std::set<int> numbers;
        for( auto& g : s.partGroups ) if( !numbers.insert( g.number ).second ) return true;
        return false;
    }
    // a voice that takes no time cannot be separated from the next one by a backup
    bool voiceWithoutDuration( const ScoreData& s, const std::string& path )
    {
        int p, m, st, v;
        if( std::sscanf( path.c_str(), "parts[%d].measures[%d].staves[%d].voices{%d}", &p, &m, &st, &v ) != 4 ) return false;
        if( p >= (int)s.parts.size() || m >= (int)s.parts[p].measures.size() || st >= (int)s.parts[p].measures[m].staves.size() ) return false;
        for( auto& w : s.parts[p].measures[m].staves[st].voices )
        {
            bool any = false;
            for( auto& n : w.second.notes ) if( n.durationData.durationTimeTicks > 0 ) any = true;
            if( !any ) return true;
        }
        return false;
    }
    // whatever was extracted, the first save and open settles it: nothing changes any more
    void a06( pbt::Tape& t, pbt::Ctx& c )
    {
        const std::string text = input( t, c, t.chance( 1, 2 ) );
        c.input( text );
        ScoreData s, r, q;
        try
        {
            Doc doc( open( text ) );
            s = dm().getData( doc.id );
        }
        catch( const std::exception& ) { c.tag( "rejected" ); throw pbt::Discard{}; }
        std::string x, y;
        const auto w = (score::Way)t.below( 4 );
        c.tag( score::wayName( w ) );
        for( auto& p : s.parts ) if( p.measures.empty() ) throw pbt::Discard{}; // written as a part with one measure
        if( s.parts.empty() ) throw pbt::Discard{};
        if( !cycle( c, s, w, r, x ) ) return;
        c.nontrivial( refl::showScore( s ) );
        c.input( text + "\n<!-- written again -->\n" + x );
        if( !cycle( c, r, w, q, y ) ) return;
        size_t n = 0;
        for( auto& d : refl::differences( r, q ) )
        {
            if( d.field().rfind( "partGroups", 0 ) == 0 && sameGroupNumbers( s ) ) { ++n; continue; }
            if( d.field() == "parts.measures.staves.voices.notes.userRequestedVoiceNumber" && voiceWithoutDuration( s, d.path ) ) { ++n; continue; }
            c.fail( "second:" + d.field(), std::string( "(" ) + score::wayName( w ) + ") " + d.path + ": " + d.left + " after the first save, " + d.right + " after the second\n" );
            if( ++n > 30 ) break;
        }
        if( n || w == score::Way::memory ) return;
        // and so is the text (the first save may arrange the same data in a different way)
        std::string z;
        if( !cycle( c, q, w, r, z ) ) return;
        if( z != y )
        {
            c.input( text + "\n<!-- written again -->\n" + y + "\n<!-- and again -->\n" + z );
            c.fail( "text", std::string( "(" ) + score::wayName( w ) + ") the text written by the third save differs from the second\n" );
        }
    }

    // the repository's own example files lose nothing in the first save either
    const size_t quickBytes = 60000, thoroughBytes = 3000000;
    void a06corpus( pbt::Tape& t, pbt::Ctx& c )
    {
        const size_t bytes = c.thorough ? thoroughBytes : quickBytes;
        const uint64_t index = c.caseIndex;
        if( index / 4 >= docs::samples( bytes ) ) throw pbt::Discard{};
        const auto w = (score::Way)( index % 4 );
        const std::string text = docs::sampleText( index / 4, bytes );
        c.input( docs::sampleName( index / 4, bytes ) + " (" + score::wayName( w ) + ")" );
        ScoreData s, r;
        try
        {
            Doc doc( open( text ) );
            s = dm().getData( doc.id );
        }
        catch( const std::exception& ) { c.tag( "rejected" ); throw pbt::Discard{}; }
        std::string x;
        if( !cycle( c, s, w, r, x ) ) return;
        c.nontrivial( refl::showScore( s ) );
        report( c, s, r, "corpus:", docs::sampleName( index / 4, bytes ) + " (" + score::wayName( w ) + ") " );
    }

    // ------------------------------------------------------------------ A11
    // a score for which nothing has to be invented when it is written
    ScoreData scoreWithIds( pbt::Tape& t )
    {
        score::Opts o;
        o.attachments = o.directions = o.measures = o.header = t.pick<int>( { 5, 20, 40 } );
        o.maxMeasures = 3;
        ScoreData s = score::generate( t, o );
        int i = 0;
        for( auto& p : s.parts ) p.instrumentData.uniqueId = "I" + std::to_string( ++i );
        return s;
    }
    struct Held
    {
        int id = 0;
        bool alive = true, haveData = false, dataThrows = false, timewise = false, haveText = false;
        std::string text;
        ScoreData data;
    };
    void a11( pbt::Tape& t, pbt::Ctx& c )
    {
        std::vector<Held> held;
        struct Release
        {
            std::vector<Held>& h;
            ~Release() { for( auto& x : h ) if( x.alive ) dm().destroyDocument( x.id ); }
        } release{ held };
        std::string log;
        size_t checked = 0;
        const auto compareData = [&]( Held& h )
        {
            ScoreData d;
            bool threw = false;
            try { d = dm().getData( h.id ); }
            catch( const std::exception& ) { threw = true; }
            if( !h.haveData )
            {
                h.haveData = true;
                h.dataThrows = threw;
                h.data = d;
                return;
            }
            ++checked;
            if( threw != h.dataThrows ) { c.input( log ); c.fail( "data-outcome", "extracting the data of document " + std::to_string( h.id ) + ( threw ? " throws now and did not before\n" : " threw before and does not now\n" ) ); return; }
            size_t n = 0;
            for( auto& x : refl::differences( h.data, d ) )
            {
                c.input( log );
                c.fail( "data: " + x.field(), "document " + std::to_string( h.id ) + ", " + x.path + ": " + x.left + " the first time, " + x.right + " now\n" );
                if( ++n > 10 ) break;
            }
        };
        const auto compareText = [&]( Held& h, bool toFile )
        {
            std::string x;
            if( toFile )
            {
                const std::string path = pbt::scratchDir() + "/a11.xml";
                dm().writeToFile( h.id, path );
                x = pbt::readFile( path );
            }
            else x = write( h.id );
            if( !h.haveText )
            {
                h.haveText = true;
                h.text = x;
                return;
            }
            ++checked;
            if( x != h.text ) { c.input( log + h.text + "\n<!-- now -->\n" + x ); c.fail( "text", "document " + std::to_string( h.id ) + " is written differently now\n" ); }
            if( ( dm().getDocument( h.id )->getChoice() == mx::core::DocumentChoice::timewise ) != h.timewise ) { c.input( log ); c.fail( "organisation", "document " + std::to_string( h.id ) + " has changed its organisation\n" ); }
        };
        int steps = t.range( 3, 14 );
        for( ; steps > 0; --steps )
        {
            const size_t k = held.empty() ? 0 : t.below( (uint32_t)held.size() );
            const int op = held.empty() ? 0 : (int)t.weighted( { 2, 5, 5, 1, 1 } );
            switch( op )
            {
            case 0: // a new document
            {
                Held h;
                if( t.coin() )
                {
                    const std::string text = input( t, c, t.chance( 1, 2 ) );
                    log += "open " + text + "\n";
                    try { h.id = open( text ); }
                    catch( const std::exception& ) { log += "rejected\n"; continue; }
                }
                else
                {
                    const ScoreData s = scoreWithIds( t );
                    ScoreData given = s;
                    log += "create from score " + refl::showScore( s ) + "\n";
                    try { h.id = dm().createFromScore( given ); }
                    catch( const std::exception& ) { continue; }
                    for( auto& x : refl::differences( s, given ) )
                    {
                        c.input( log );
                        c.fail( "argument: " + x.field(), "createFromScore changed its argument: " + x.path + ": " + x.left + " before, " + x.right + " after\n" );
                    }
                    if( t.coin() ) // the same score makes the same document
                    {
                        Doc again( dm().createFromScore( given ) );
                        ++checked;
                        const std::string x = write( h.id ), y = write( again.id );
                        if( x != y ) { c.input( log + x + "\n<!-- again -->\n" + y ); c.fail( "create-twice", "two documents created from the same score are written differently\n" ); }
                    }
                }
                h.timewise = dm().getDocument( h.id )->getChoice() == mx::core::DocumentChoice::timewise;
                held.push_back( h );
                break;
            }
            case 1:
                log += "getData " + std::to_string( held[k].id ) + "\n";
                if( held[k].alive ) compareData( held[k] );
                break;
            case 2:
            {
                const bool file = t.chance( 1, 4 );
                log += std::string( file ? "writeToFile " : "writeToStream " ) + std::to_string( held[k].id ) + "\n";
                if( held[k].alive ) compareText( held[k], file );
                break;
            }
            case 3: // another one goes away
                if( held.size() > 1 && held[k].alive )
                {
                    log += "destroyDocument " + std::to_string( held[k].id ) + "\n";
                    dm().destroyDocument( held[k].id );
                    held[k].alive = false;
                }
                break;
            case 4: // opening fails
                log += "open something else\n";
                try { Doc other( open( t.pick<const char*>( { "", "<score-partwise", "<html/>", "<score-partwise><x/></score-partwise>" } ) ) ); }
                catch( const std::exception& ) {}
                break;
            }
        }
        for( auto& h : held )
            if( h.alive ) { compareText( h, false ); compareData( h ); compareText( h, false ); }
        c.input( log );
        if( checked >= 3 ) c.nontrivial( log );
        c.evaluations( checked );
    }

    PBT_PROPERTY( pbt::Property{ "A11", "histories", "at least three results are compared with earlier ones; distinct by the history", a11, 3000, 60000 } );
    PBT_PROPERTY( pbt::Property{ "R02", "documents", "the document is accepted and its data extracted", r02, 20000, 400000 } );
    PBT_PROPERTY( pbt::Property{ "A06", "documents", "the document's data is extracted; distinct by the data", a06, 5000, 200000 } );
    PBT_PROPERTY( pbt::Property{ "A06", "corpus", "the file's data is extracted; distinct by the data", a06corpus, docs::samples( quickBytes ) * 4, docs::samples( thoroughBytes ) * 4, 120, false, true } );
}
