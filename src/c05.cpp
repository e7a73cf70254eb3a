// C05: every enumeration maps one-to-one onto the schema's vocabulary
#include "common/pbt.h"
#include "common/xml.h"
#include "mx/api/SoundID.h"
#include "mx/core/Enums.h"
#include "mx/core/EnumsBuiltin.h"
#include "mx/core/PlaybackSound.h"
#include <algorithm>
#include <optional>
#include <sstream>

using namespace pbt;
using namespace mx::core;

namespace
{
    struct Voc
    {
        std::string name;
        std::vector<std::string> spellings;              // schema order
        std::function<std::optional<int>( const std::string& )> tryParse; // may be empty
        std::function<int( const std::string& )> parse;  // may be empty; may throw
        std::function<std::string( int )> print;
        std::function<std::vector<std::string>( int )> prints; // all other printing paths
    };
    std::vector<std::string> schemaEnum( const std::string& t )
    {
        auto it = xml::grammar().simpleByName.find( t );
        if( it == xml::grammar().simpleByName.end() ) return {};
        return it->second->enums;
    }
    std::vector<std::string> soundsList()
    {
        std::istringstream is( readFile( verifDir() + "/data/sounds.txt" ) );
        std::vector<std::string> v;
        for( std::string l; std::getline( is, l ); ) if( !l.empty() ) v.push_back( l );
        return v;
    }
    template <class E> std::vector<std::string> streamed( int i )
    {
        std::ostringstream a, b;
        toStream( a, static_cast<E>( i ) );
        b << static_cast<E>( i );
        return { a.str(), b.str() };
    }
#define E_( T, V ) Voc{ #T, V, []( const std::string& s ) -> std::optional<int> { auto r = tryParse##T( s ); if( r ) return (int)*r; return std::nullopt; }, []( const std::string& s ) { return (int)parse##T( s ); }, []( int i ) { return toString( static_cast<T>( i ) ); }, streamed<T> },
#define E( T, V ) E_( T, schemaEnum( V ) )
#define B( T, ... ) Voc{ #T, ( std::vector<std::string>{ __VA_ARGS__ } ), nullptr, []( const std::string& s ) { return (int)parse##T( s ); }, []( int i ) { return toString( static_cast<T>( i ) ); }, streamed<T> },

    const std::vector<Voc>& vocs()
    {
        static const std::vector<Voc> v{
    E( AboveBelow, "above-below" ) E( AccidentalValue, "accidental-value" ) E( ArrowDirectionEnum, "arrow-direction" ) E( ArrowStyleEnum, "arrow-style" )
    E( BackwardForward, "backward-forward" ) E( BarStyleEnum, "bar-style" ) E( BeamValue, "beam-value" ) E( BeaterValue, "beater-value" )
    E( BreathMarkValue, "breath-mark-value" ) E( CancelLocation, "cancel-location" ) E( CircularArrowEnum, "circular-arrow" ) E( ClefSign, "clef-sign" )
    E( CssFontSize, "css-font-size" ) E( DegreeSymbolValue, "degree-symbol-value" ) E( DegreeTypeValue, "degree-type-value" ) E( EffectEnum, "effect" )
    E( EnclosureShape, "enclosure-shape" ) E( Fan, "fan" ) E( FermataShape, "fermata-shape" ) E( FontStyle, "font-style" )
    E( FontWeight, "font-weight" ) E( GlassEnum, "glass" ) E( GroupBarlineValue, "group-barline-value" ) E( GroupSymbolValue, "group-symbol-value" )
    E( HandbellValue, "handbell-value" ) E( HarmonyType, "harmony-type" ) E( HoleClosedLocation, "hole-closed-location" ) E( HoleClosedValue, "hole-closed-value" )
    E( KindValue, "kind-value" ) E( LeftCenterRight, "left-center-right" ) E( LeftRight, "left-right" ) E( LineEnd, "line-end" )
    E( LineShape, "line-shape" ) E( LineType, "line-type" ) E( MarginType, "margin-type" ) E( MeasureNumberingValue, "measure-numbering-value" )
    E( MembraneEnum, "membrane" ) E( MetalEnum, "metal" ) E( MuteEnum, "mute" ) E( NoteSizeType, "note-size-type" )
    E( NoteTypeValue, "note-type-value" ) E( NoteheadValue, "notehead-value" ) E( OnOff, "on-off" ) E( OverUnder, "over-under" )
    E( PitchedEnum, "pitched" ) E( PrincipalVoiceSymbol, "principal-voice-symbol" ) E( RightLeftMiddle, "right-left-middle" ) E( SemiPitchedEnum, "semi-pitched" )
    E( ShowFrets, "show-frets" ) E( ShowTuplet, "show-tuplet" ) E( StaffTypeEnum, "staff-type" ) E( StartNote, "start-note" )
    E( StartStop, "start-stop" ) E( StartStopChangeContinue, "start-stop-change-continue" ) E( StartStopContinue, "start-stop-continue" ) E( StartStopDiscontinue, "start-stop-discontinue" )
    E( StartStopSingle, "start-stop-single" ) E( StemValue, "stem-value" ) E( StepEnum, "step" ) E( StickLocationEnum, "stick-location" )
    E( StickMaterialEnum, "stick-material" ) E( StickTypeEnum, "stick-type" ) E( SyllabicEnum, "syllabic" ) E( SymbolSize, "symbol-size" )
    E( TextDirection, "text-direction" ) E( TimeRelationEnum, "time-relation" ) E( TimeSeparator, "time-separator" ) E( TimeSymbol, "time-symbol" )
    E( TipDirection, "tip-direction" ) E( TopBottom, "top-bottom" ) E( TrillStep, "trill-step" ) E( TwoNoteTurn, "two-note-turn" )
    E( UpDown, "up-down" ) E( UpDownStopContinue, "up-down-stop-continue" ) E( UprightInverted, "upright-inverted" ) E( Valign, "valign" )
    E( ValignImage, "valign-image" ) E( WedgeType, "wedge-type" ) E( Winged, "winged" ) E( WoodEnum, "wood" )
    E( YesNo, "yes-no" )
    B( XlinkActuate, "onRequest", "onLoad", "other", "none" ) B( XlinkShow, "new", "replace", "embed", "other", "none" )
    B( XlinkType, "simple", "extended", "title", "resource", "locator", "arc" ) B( XmlSpace, "default", "preserve" )
    Voc{ "PlaybackSound", soundsList(), nullptr, []( const std::string& s ) { return (int)PlaybackSoundFromString( s ); }, []( int i ) { return std::string( PlaybackSoundToString( static_cast<PlaybackSound>( i ) ) ); }, nullptr },
    Voc{ "SoundID", soundsList(), nullptr, []( const std::string& s ) { const auto r = mx::api::SoundIDFromString( s ); if( r == mx::api::SoundID::errorBadString ) throw std::runtime_error( "bad" ); return (int)r; }, []( int i ) { return mx::api::SoundIDToString( static_cast<mx::api::SoundID>( i ) ); }, nullptr },
        };
        return v;
    }
    // the child names of the dynamics and other "open" vocabularies
    std::vector<std::string> dynamicsNames()
    {
        for( auto& e : xml::grammar().elements )
            if( e.first == "dynamics" )
            {
                std::vector<std::string> out;
                std::function<void( const xml::Part& )> walk = [&]( const xml::Part& p ) {
                    if( p.kind == xml::Part::Elem ) { if( p.name != "other-dynamics" ) out.push_back( p.name ); }
                    for( auto& k : p.kids ) walk( k );
                };
                walk( e.second->content );
                return out;
            }
        return {};
    }

    // exhaustively: one case per type
    void vocabulary( Tape&, Ctx& c )
    {
        const Voc& v = vocs()[c.caseIndex % vocs().size()];
        c.input( v.name );
        c.tag( v.name );
        if( v.spellings.empty() ) { c.fail( "harness:no-vocabulary", v.name ); return; }
        std::map<int, std::string> seen;
        int top = 0;
        for( auto& s : v.spellings )
        {
            int i = 0;
            try { i = v.parse( s ); }
            catch( const std::exception& e ) { c.fail( "rejected:" + v.name + "/" + s, "\"" + s + "\" is not accepted as " + v.name ); continue; }
            if( v.tryParse )
            {
                const auto o = v.tryParse( s );
                if( !o ) { c.fail( "rejected:" + v.name + "/" + s, "\"" + s + "\" is not accepted as " + v.name ); continue; }
                if( *o != i ) c.fail( "parse-paths:" + v.name + "/" + s, "parse and tryParse give different members for \"" + s + "\"" );
            }
            auto ins = seen.insert( { i, s } );
            if( !ins.second ) c.fail( "same-member:" + v.name + "/" + s, "\"" + s + "\" and \"" + ins.first->second + "\" are read as the same member" );
            const std::string p = v.print( i );
            if( p != s ) c.fail( "printed:" + v.name + "/" + s, "\"" + s + "\" is printed as \"" + p + "\"" );
            if( v.prints ) for( auto& q : v.prints( i ) ) if( q != s ) c.fail( "streamed:" + v.name + "/" + s, "\"" + s + "\" is streamed as \"" + q + "\"" );
            top = std::max( top, i );
            c.nontrivial( v.name + "/" + s );
        }
        c.evaluations( v.spellings.size() );
    }

    std::string mutate( Tape& t, std::string s )
    {
        const int n = t.range( 1, 2 );
        for( int i = 0; i < n; ++i )
        {
            const size_t at = s.empty() ? 0 : t.below( (uint32_t)s.size() );
            switch( t.below( 11 ) )
            {
                case 0: if( !s.empty() ) s[at] = (char)( isupper( (unsigned char)s[at] ) ? tolower( s[at] ) : toupper( s[at] ) ); break;
                case 1: if( !s.empty() ) s.erase( at, 1 ); break;
                case 2: s.insert( at, 1, (char)( 'a' + t.below( 26 ) ) ); break;
                case 3: s = " " + s; break;
                case 4: s += t.pick( { " ", "\n", "s", "-", ".", "x" } ); break;
                case 5: for( char& ch : s ) if( ch == '-' ) ch = '_'; else if( ch == ' ' ) ch = '-'; break;
                case 6: for( char& ch : s ) ch = (char)toupper( (unsigned char)ch ); break;
                case 7: s = s.substr( 0, at ); break;
                case 8: s = s.substr( at ); break;
                case 9: s += s; break;
                default: if( s.size() > 1 ) std::swap( s[at], s[( at + 1 ) % s.size()] ); break;
            }
        }
        return s;
    }
    void otherText( Tape& t, Ctx& c )
    {
        const Voc& v = vocs()[t.below( (uint32_t)vocs().size() )];
        std::string s;
        switch( t.below( 4 ) )
        {
            case 0: s = mutate( t, t.pick( v.spellings ) ); break;
            case 1: s = t.pick( vocs()[t.below( (uint32_t)vocs().size() )].spellings ); break;
            case 2: s = mutate( t, t.pick( vocs()[t.below( (uint32_t)vocs().size() )].spellings ) ); break;
            default: s = t.chance( 1, 8 ) ? "" : xml::genText( t, t.coin() );
        }
        c.input( v.name + " from \"" + s + "\"" );
        c.tag( v.name );
        const bool known = std::find( v.spellings.begin(), v.spellings.end(), s ) != v.spellings.end();
        c.nontrivial( v.name + "/" + s );
        std::optional<int> got;
        bool threw = false;
        try { got = v.parse( s ); } catch( const std::exception& ) { threw = true; }
        if( known )
        {
            if( threw || v.print( *got ) != s ) c.fail( "known-text:" + v.name, "\"" + s + "\" is a schema spelling of " + v.name + " but is not read as itself" );
            return;
        }
        if( v.tryParse && v.tryParse( s ) ) c.fail( "accepts:" + v.name, "\"" + s + "\" is no spelling of " + v.name + " but is accepted as \"" + v.print( *v.tryParse( s ) ) + "\"" );
        if( threw ) return;
        // the default for text that is not in the vocabulary is one and the same member
        const int dflt = v.parse( "\x01 no such spelling \x01" );
        if( *got != dflt ) c.fail( "taken-for:" + v.name, "\"" + s + "\" is no spelling of " + v.name + " but is read as \"" + v.print( *got ) + "\", not as the default \"" + v.print( dflt ) + "\"" );
    }

    // streaming writes XML text: custom text is escaped there, as it is for strings
    std::string unescape( const std::string& s )
    {
        static const std::pair<std::string, char> e[] = { { "&lt;", '<' }, { "&gt;", '>' }, { "&quot;", '"' }, { "&apos;", '\'' }, { "&amp;", '&' } };
        std::string o;
        for( size_t i = 0; i < s.size(); )
        {
            bool hit = false;
            for( auto& p : e ) if( s.compare( i, p.first.size(), p.first ) == 0 ) { o += p.second; i += p.first.size(); hit = true; break; }
            if( !hit ) o += s[i++];
        }
        return o;
    }

    // the classes that hold a member or custom text
    struct Open
    {
        const char* name;
        std::function<void( Tape&, Ctx&, const std::vector<std::string>& )> run;
        std::vector<std::string> voc;
    };
    template <class W, class En> void runOpen( Tape& t, Ctx& c, const std::vector<std::string>& voc, const std::string& name, En other,
                                               En ( *parseEnum )( const std::string& ), std::optional<En> ( *tryParseEnum )( const std::string& ), W ( *parseW )( const std::string& ) )
    {
        W w;
        std::string log = name + ":", expect = w.getValueString();
        bool custom = false;
        const int n = t.range( 1, 8 );
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            switch( t.below( 4 ) )
            {
                case 0:
                {
                    const std::string s = t.pick( voc );
                    const auto e = tryParseEnum( s );
                    if( !e ) { c.fail( "rejected:" + name + "/" + s, s ); return; }
                    if( parseEnum( s ) != *e ) c.fail( "parse-paths:" + name, s );
                    if( *e == other ) c.fail( "known-as-other:" + name + "/" + s, "\"" + s + "\" is read as other" );
                    if( toString( *e ) != s ) c.fail( "printed:" + name + "/" + s, "\"" + s + "\" is printed as " + toString( *e ) );
                    log += " set enum " + s;
                    if( t.coin() ) w.setValue( *e ); else w = W( *e );
                    expect = s;
                    custom = false;
                    break;
                }
                case 1:
                {
                    const std::string s = t.pick( voc );
                    log += " set text \"" + s + "\"";
                    if( t.coin() ) w.setValue( s ); else if( t.coin() ) w = W( s ); else w = parseW( s );
                    expect = s;
                    custom = false;
                    break;
                }
                default:
                {
                    std::string s = t.chance( 1, 10 ) ? t.pick( { std::string( "other" ), std::string( "other-dynamics" ), std::string( "otherDynamics" ), std::string() } ) : t.coin() ? mutate( t, t.pick( voc ) ) : xml::genText( t, false );
                    log += " set text \"" + s + "\"";
                    if( t.coin() ) w.setValue( s ); else if( t.coin() ) w = W( s ); else w = parseW( s );
                    expect = s;
                    custom = std::find( voc.begin(), voc.end(), s ) == voc.end();
                }
            }
            if( w.getValueString() != expect ) c.fail( "open-text:" + name, log + ": holds \"" + w.getValueString() + "\"" );
            if( ( w.getValue() == other ) != custom ) c.fail( "open-member:" + name, log + ": custom text is " + ( custom ? "not " : "" ) + "marked as other" );
            if( !custom && toString( w.getValue() ) != expect ) c.fail( "open-member:" + name, log + ": member " + toString( w.getValue() ) );
            std::ostringstream a, b;
            toStream( a, w );
            b << w;
            if( toString( w ) != expect || unescape( a.str() ) != expect || b.str() != a.str() || a.str().find( '<' ) != std::string::npos ) c.fail( "open-print:" + name, log + ": printed \"" + toString( w ) + "\", \"" + a.str() + "\", \"" + b.str() + "\"" );
            W x( w );
            x.setValue( voc[0] );
            if( w.getValueString() != expect ) c.fail( "open-alias:" + name, log + ": changing a copy changed the original" );
            c.nontrivial( name + "=" + expect );
        }
        c.input( log );
    }
    void open( Tape& t, Ctx& c )
    {
        switch( t.below( 4 ) )
        {
            case 0: c.tag( "DistanceType" ); return runOpen<DistanceType, DistanceTypeEnum>( t, c, { "beam", "hyphen" }, "DistanceType", DistanceTypeEnum::other, parseDistanceTypeEnum, tryParseDistanceTypeEnum, parseDistanceType );
            case 1: c.tag( "DynamicsValue" ); { static const auto names = dynamicsNames(); if( names.size() != 23 ) c.fail( "harness:no-vocabulary", "dynamics" ); return runOpen<DynamicsValue, DynamicsEnum>( t, c, names, "DynamicsValue", DynamicsEnum::otherDynamics, parseDynamicsEnum, tryParseDynamicsEnum, parseDynamicsValue ); }
            case 2: c.tag( "LineWidthType" ); return runOpen<LineWidthType, LineWidthTypeEnum>( t, c, { "beam", "bracket", "dashes", "enclosure", "ending", "extend", "heavy barline", "leger", "light barline", "octave shift", "pedal", "slur middle", "slur tip", "staff", "stem", "tie middle", "tie tip", "tuplet bracket", "wedge" }, "LineWidthType", LineWidthTypeEnum::other, parseLineWidthTypeEnum, tryParseLineWidthTypeEnum, parseLineWidthType );
            default: c.tag( "ModeValue" ); return runOpen<ModeValue, ModeEnum>( t, c, { "major", "minor", "dorian", "phrygian", "lydian", "mixolydian", "aeolian", "ionian", "locrian", "none" }, "ModeValue", ModeEnum::other, parseModeEnum, tryParseModeEnum, parseModeValue );
        }
    }

    PBT_PROPERTY( { "C05", "vocabulary", "every schema spelling of every enumeration type; distinct = (type, spelling)", vocabulary, 87, 87, 60, false, true } );
    PBT_PROPERTY( { "C05", "other-text", "a spelling damaged by one or two edits, a spelling of another type, or random text, given to a random type; distinct = (type, text)", otherText, 120000, 4000000 } );
    PBT_PROPERTY( { "C05", "open-vocabulary", "a random history of member and text assignments to a type that keeps custom text; distinct = (type, resulting text)", open, 20000, 1000000 } );
}
