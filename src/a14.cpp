// A14: the helpers of the score data structures against their definitions.
#include "common/gen.h"
#include "common/score.h"
#include "common/xml.h"
#include "mx/api/Version.h"
#include <algorithm>
#include <cmath>
#include <ctime>
#include <functional>

using namespace mx::api;

namespace
{
    // ------------------------------------------------------------------ sorting
    template <class T> void arrange( std::vector<T>& v ) // by time; those at the same time keep their order
    {
        std::vector<T> out;
        for( auto& x : v )
        {
            size_t at = out.size();
            while( at > 0 && out[at - 1].tickTimePosition > x.tickTimePosition ) --at;
            out.insert( out.begin() + (long)at, x );
        }
        v = out;
    }
    template <class T> void shuffle( pbt::Tape& t, std::vector<T>& v, std::string& log )
    {
        if( v.empty() && t.chance( 2, 3 ) ) v.resize( t.below( 9 ) );
        const int spread = t.pick<int>( { 0, 1, 3, 1000000, INT_MAX } );
        for( size_t i = 0; i < v.size(); ++i )
        {
            v[i].tickTimePosition = spread == INT_MAX ? t.pick<int>( { INT_MIN, -1, 0, 1, INT_MAX } ) : t.range( -spread, spread );
            log += " " + std::to_string( v[i].tickTimePosition );
        }
        log += ";";
    }
    void sorting( pbt::Tape& t, pbt::Ctx& c )
    {
        ScoreData s;
        gen::Opts o;
        o.density = 20;
        o.vec = t.pick<double>( { 0.8, 1.5, 3 } );
        o.depthVec = 6;
        o.budget = 1500;
        gen::fill( t, s, o );
        if( s.parts.empty() ) s.parts.emplace_back();
        if( s.parts[0].measures.empty() ) s.parts[0].measures.emplace_back();
        if( s.parts[0].measures[0].staves.empty() ) s.parts[0].measures[0].staves.emplace_back();
        std::string log;
        int serial = 0;
        for( auto& p : s.parts )
            for( auto& m : p.measures )
                for( auto& st : m.staves )
                {
                    if( st.voices.empty() && t.coin() ) st.voices[t.range( -1, 5 )];
                    shuffle( t, st.clefs, log );
                    shuffle( t, st.directions, log );
                    for( auto& x : st.clefs ) x.octaveChange = ++serial;
                    for( auto& x : st.directions ) x.voice = ++serial;
                    for( auto& v : st.voices )
                    {
                        shuffle( t, v.second.notes, log );
                        for( auto& n : v.second.notes ) n.durationData.durationTimeTicks = ++serial;
                    }
                }
        c.input( "times:" + log );
        ScoreData expected = s, twice;
        for( auto& p : expected.parts )
            for( auto& m : p.measures )
                for( auto& st : m.staves )
                {
                    arrange( st.clefs );
                    arrange( st.directions );
                    for( auto& v : st.voices ) arrange( v.second.notes );
                }
        if( !refl::differences( expected, s ).empty() ) c.nontrivial( log );
        s.sort();
        auto d = refl::differences( expected, s );
        if( !d.empty() ) c.fail( "sort", "after sorting " + d[0].path + " is " + d[0].right + ", expected " + d[0].left );
        twice = s;
        twice.sort();
        d = refl::differences( s, twice );
        if( !d.empty() ) c.fail( "sort-twice", "sorting again changes " + d[0].path );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "sorting", "something was out of order; distinct by all the times", sorting, 6000, 200000 } );

    // ------------------------------------------------------------------ locations and counts
    void places( pbt::Tape& t, pbt::Ctx& c )
    {
        ScoreData s;
        std::string log;
        const int parts = t.below( 5 );
        for( int p = 0; p < parts; ++p )
        {
            PartData pd;
            pd.uniqueId = t.pick<std::string>( { "P1", "P2", "P3", "", "p1", "P1 " } );
            log += " " + pd.uniqueId + "[";
            const int measures = t.below( 4 );
            for( int m = 0; m < measures; ++m )
            {
                MeasureData md;
                md.staves.resize( t.below( 4 ) );
                log += std::to_string( md.staves.size() );
                for( auto& st : md.staves )
                {
                    log += "(";
                    for( int v = (int)t.below( 3 ); v > 0; --v )
                    {
                        const int number = t.around( -3, 40, 0 );
                        st.voices[number];
                        log += std::to_string( number ) + " ";
                    }
                    log += ")";
                }
                log += " ";
                pd.measures.push_back( md );
            }
            log += "]";
            s.parts.push_back( pd );
        }
        c.input( log );
        c.nontrivial( log );
        int numMeasures = 0, staves = 0;
        for( auto& p : s.parts )
        {
            int n = 0, voice = 0;
            for( auto& m : p.measures )
            {
                n = std::max( n, (int)m.staves.size() );
                for( auto& st : m.staves ) for( auto& v : st.voices ) voice = std::max( voice, v.first );
            }
            if( p.getNumStaves() != n ) c.fail( "getNumStaves", "getNumStaves is " + std::to_string( p.getNumStaves() ) + ", expected " + std::to_string( n ) );
            if( p.getMaxVoice() != voice ) c.fail( "getMaxVoice", "getMaxVoice is " + std::to_string( p.getMaxVoice() ) + ", expected " + std::to_string( voice ) );
            staves += n;
            numMeasures = std::max( numMeasures, (int)p.measures.size() );
        }
        if( s.getNumMeasures() != numMeasures ) c.fail( "getNumMeasures", "getNumMeasures is " + std::to_string( s.getNumMeasures() ) + ", expected " + std::to_string( numMeasures ) );
        if( s.getNumStavesPerSystem() != staves ) c.fail( "getNumStavesPerSystem", "getNumStavesPerSystem is " + std::to_string( s.getNumStavesPerSystem() ) + ", expected " + std::to_string( staves ) );
        for( const char* id : { "P1", "P2", "P3", "", "p1", "P1 ", "P", "no" } )
        {
            size_t at = 0;
            while( at < s.parts.size() && s.parts[at].uniqueId != id ) ++at;
            const auto found = findPart( s.parts, id );
            if( (size_t)( found - s.parts.begin() ) != at ) c.fail( "findPart", std::string( "findPart( " ) + id + " ) leads to part " + std::to_string( found - s.parts.begin() ) + " instead of " + std::to_string( at ) );
        }
        for( int p : { -1, 0, 1, 2, 3, 4, 5, INT_MIN, INT_MAX } )
            for( int m : { -1, 0, 1, 2, 3, 4, INT_MIN, INT_MAX } )
                for( int st : { -1, 0, 1, 2, 3, 4, INT_MIN, INT_MAX } )
                {
                    MeasureLocation l;
                    l.partIndex = p;
                    l.measureIndex = m;
                    l.staffIndex = st;
                    const bool exists = p >= 0 && p < (int)s.parts.size() && m >= 0 && m < (int)s.parts[(size_t)p].measures.size() && st >= 0 && st < (int)s.parts[(size_t)p].measures[(size_t)m].staves.size();
                    bool valid = false;
                    try { valid = l.isValid( s ); }
                    catch( const std::exception& e ) { c.fail( "location-throws", e.what() ); }
                    if( valid != exists ) c.fail( "location", "part " + std::to_string( p ) + " measure " + std::to_string( m ) + " staff " + std::to_string( st ) + ( exists ? " exists and is not valid" : " does not exist and is valid" ) );
                    c.evaluations( 1 );
                }
    }
    PBT_PROPERTY( pbt::Property{ "A14", "places", "every generated score; distinct by its shape", places, 20000, 500000 } );

    // ------------------------------------------------------------------ durations
    struct Length { DurationName name; const char* term; long quarters1024; }; // in 1/256 of a quarter
    const Length lengths[] = {
        { DurationName::maxima, "maxima", 32 * 256 }, { DurationName::longa, "long", 16 * 256 }, { DurationName::breve, "breve", 8 * 256 }, { DurationName::whole, "whole", 4 * 256 },
        { DurationName::half, "half", 2 * 256 }, { DurationName::quarter, "quarter", 256 }, { DurationName::eighth, "eighth", 128 }, { DurationName::dur16th, "16th", 64 },
        { DurationName::dur32nd, "32nd", 32 }, { DurationName::dur64th, "64th", 16 }, { DurationName::dur128th, "128th", 8 }, { DurationName::dur256th, "256th", 4 },
        { DurationName::dur512th, "512th", 2 }, { DurationName::dur1024th, "1024th", 1 } };

    void dots( pbt::Tape& t, pbt::Ctx& c )
    {
        const int n = t.around( 0, 20, 0 );
        const long double constants[] = { DUR_QUARTERS_VALUE_MAXIMA, DUR_QUARTERS_VALUE_LONGA, DUR_QUARTERS_VALUE_BREVE, DUR_QUARTERS_VALUE_WHOLE, DUR_QUARTERS_VALUE_HALF, DUR_QUARTERS_VALUE_QUARTER, DUR_QUARTERS_VALUE_EIGHTH,
            DUR_QUARTERS_VALUE_16TH, DUR_QUARTERS_VALUE_32ND, DUR_QUARTERS_VALUE_64TH, DUR_QUARTERS_VALUE_128TH, DUR_QUARTERS_VALUE_256TH, DUR_QUARTERS_VALUE_512TH, DUR_QUARTERS_VALUE_1024TH };
        const size_t k = t.below( 14 );
        if( constants[k] * 256 != lengths[k].quarters1024 ) c.fail( std::string( "length:" ) + lengths[k].term, "a " + std::string( lengths[k].term ) + " is " + refl::number( constants[k] ) + " quarters" );
        const long double value = t.coin() ? constants[k] : (long double)t.around( -100000, 100000, 0 ) / 16;
        c.input( refl::number( value ) + " with " + std::to_string( n ) + " dots" );
        c.nontrivial( refl::number( value ) + "," + std::to_string( n ) );
        const long double expected = value * ( 2 - powl( 0.5L, n ) ), got = applyDots( value, n );
        if( fabsl( got - expected ) > 1e-12L * ( 1 + fabsl( value ) ) ) c.fail( "applyDots", "applyDots gives " + refl::number( got ) + ", expected " + refl::number( expected ) );
        // the same for the time of a clef
        const long double mm = (long double)t.range( 1, 100000 ) / 1000, tenths = (long double)t.range( 1, 100000 ) / 1000;
        DefaultsData d;
        d.scalingMillimeters = mm;
        d.scalingTenths = tenths;
        if( fabsl( d.tenthsPerMillimeter() * mm - tenths ) > 1e-9L * tenths ) c.fail( "tenthsPerMillimeter", refl::number( tenths ) + " tenths in " + refl::number( mm ) + " mm are " + refl::number( d.tenthsPerMillimeter() ) + " per mm" );
        if( fabsl( d.tenthsPerInch() - 25.4L * d.tenthsPerMillimeter() ) > 1e-9L * d.tenthsPerInch() ) c.fail( "tenthsPerInch", refl::number( d.tenthsPerInch() ) + " per inch" );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "dots", "every generated length; distinct by length and dots", dots, 20000, 400000 } );

    // a note without a type takes it from its duration
    void untyped( pbt::Tape& t, pbt::Ctx& c )
    {
        const int divisions = t.pick<int>( { 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 96, 256, 420, 480, 768, 1024, 10080 } );
        const auto& l = lengths[t.below( 14 )];
        const bool exact = t.chance( 4, 5 );
        long duration = l.quarters1024 * divisions / 256;
        if( !exact ) duration = t.range( 1, 40 * divisions );
        if( duration <= 0 ) throw pbt::Discard{};
        const bool rest = t.coin();
        c.input( "duration " + std::to_string( duration ) + " with " + std::to_string( divisions ) + " divisions" );
        DurationName expected = DurationName::unspecified;
        for( auto& x : lengths ) if( x.quarters1024 * divisions == duration * 256 ) { expected = x.name; c.nontrivial( std::to_string( duration ) + "/" + std::to_string( divisions ) ); }
        const std::string doc = "<?xml version=\"1.0\"?><score-partwise version=\"3.0\"><part-list><score-part id=\"P1\"><part-name>n</part-name></score-part></part-list><part id=\"P1\"><measure number=\"1\"><attributes><divisions>"
            + std::to_string( divisions ) + "</divisions></attributes><note>" + ( rest ? "<rest/>" : "<pitch><step>D</step><octave>4</octave></pitch>" ) + "<duration>" + std::to_string( duration ) + "</duration></note></measure></part></score-partwise>";
        const ScoreData s = score::read( doc );
        const auto& n = s.parts.at( 0 ).measures.at( 0 ).staves.at( 0 ).voices.at( 0 ).notes.at( 0 );
        if( n.durationData.durationName != expected ) c.fail( "untyped", "a note of " + std::to_string( duration ) + " with " + std::to_string( divisions ) + " divisions has type #" + std::to_string( (int)n.durationData.durationName ) + ", expected #" + std::to_string( (int)expected ) );
        if( (long)n.durationData.durationTimeTicks * divisions != duration * s.ticksPerQuarter && duration * s.ticksPerQuarter % divisions == 0 ) c.fail( "untyped-ticks", "a note of " + std::to_string( duration ) + " with " + std::to_string( divisions ) + " divisions lasts " + std::to_string( n.durationData.durationTimeTicks ) + " ticks" );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "untyped", "the duration has a name without dots; distinct by duration and divisions", untyped, 6000, 100000 } );

    // the normal type of a tuplet follows from its length
    void tuplets( pbt::Tape& t, pbt::Ctx& c )
    {
        ScoreData s;
        s.ticksPerQuarter = t.pick<int>( { 420, 840, 1260, 10080, 5040 } );
        const int actual = t.range( 2, 9 ), normal = t.range( 1, 9 );
        if( actual == normal ) throw pbt::Discard{};
        const auto& l = lengths[t.range( 3, 9 )];
        const int nDots = t.below( 4 );
        // what one normal note lasts, in ticks
        const long double lengthTicks = (long double)l.quarters1024 * s.ticksPerQuarter / 256 * ( 2 - powl( 0.5L, nDots ) );
        const long double total = lengthTicks * normal;
        if( total != floorl( total ) ) throw pbt::Discard{};
        const long ticks = (long)total;
        if( ticks % actual ) throw pbt::Discard{};
        // the notes of the tuplet: as many as there are or a few of several lengths
        std::vector<long> notes;
        long rest = ticks;
        const long unit = ticks / actual;
        const bool merged = t.chance( 1, 3 );
        while( rest > 0 )
        {
            long k = merged ? t.range( 1, 3 ) : 1;
            if( k * unit > rest ) k = 1;
            notes.push_back( k * unit );
            rest -= k * unit;
        }
        if( notes.size() < 2 ) throw pbt::Discard{};
        PartData p;
        p.uniqueId = "P1";
        MeasureData m;
        StaffData st;
        const int before = t.below( 3 ), after = t.below( 2 );
        std::vector<NoteData> out;
        long now = 0;
        auto add = [&]( long d, bool in ) {
            NoteData n;
            n.durationData.durationName = DurationName::dur256th; // another name than that of the normal notes
            n.durationData.durationTimeTicks = (int)d;
            n.tickTimePosition = (int)now;
            if( in ) { n.durationData.timeModificationActualNotes = actual; n.durationData.timeModificationNormalNotes = normal; }
            now += d;
            out.push_back( n );
        };
        for( int i = 0; i < before; ++i ) add( s.ticksPerQuarter, false );
        const size_t first = out.size();
        for( long d : notes ) add( d, true );
        const size_t last = out.size() - 1;
        for( int i = 0; i < after; ++i ) add( s.ticksPerQuarter, false );
        TupletStart start;
        start.actualNumber = actual;
        start.normalNumber = normal;
        out[first].noteAttachmentData.tupletStarts.push_back( start );
        out[last].noteAttachmentData.tupletStops.emplace_back();
        st.voices[0].notes = out;
        m.staves.push_back( st );
        p.measures.push_back( m );
        s.parts.push_back( p );
        const std::string what = std::to_string( actual ) + " in the time of " + std::to_string( normal ) + " " + l.term + " with " + std::to_string( nDots ) + " dots, as " + std::to_string( notes.size() ) + " notes";
        c.input( what );
        c.nontrivial( what );
        c.tag( std::to_string( nDots ) + " dots" );
        const auto x = xml::parse( score::write( s ) );
        size_t at = 0;
        std::function<void( const xml::Node& )> look = [&]( const xml::Node& n ) {
            if( n.name == "note" )
            {
                std::string type;
                int found = 0;
                bool has = false;
                for( auto& k : n.kids ) if( k.name == "time-modification" ) { has = true; for( auto& j : k.kids ) { if( j.name == "normal-type" ) type = j.text; if( j.name == "normal-dot" ) ++found; } }
                const bool in = at >= first && at <= last;
                if( has != in ) c.fail( "tuplet-extent", what + ": note " + std::to_string( at ) + ( has ? " has" : " does not have" ) + " a time modification" );
                else if( in && ( type != l.term || found != nDots ) ) c.fail( "tuplet-normal-type", what + ": note " + std::to_string( at ) + " is said to be in the time of \"" + type + "\" with " + std::to_string( found ) + " dots" );
                ++at;
            }
            for( auto& k : n.kids ) look( k );
        };
        look( x.root );
        if( at != out.size() ) c.fail( "tuplet-notes", what + ": " + std::to_string( at ) + " notes are written of " + std::to_string( out.size() ) );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "tuplets", "every generated tuplet; distinct by ratio, normal type and number of notes", tuplets, 8000, 150000 } );

    // ------------------------------------------------------------------ clefs
    struct Clef { const char* name; ClefSymbol symbol; int line; void ( ClefData::*set )(); bool ( ClefData::*is )() const; };
    const Clef clefTable[] = {
        { "treble", ClefSymbol::g, 2, &ClefData::setTreble, &ClefData::isTreble }, { "bass", ClefSymbol::f, 4, &ClefData::setBass, &ClefData::isBass },
        { "soprano", ClefSymbol::c, 1, &ClefData::setSoprano, &ClefData::isSoprano }, { "mezzo-soprano", ClefSymbol::c, 2, &ClefData::setMezzoSoprano, &ClefData::isMezzoSoprano },
        { "alto", ClefSymbol::c, 3, &ClefData::setAlto, &ClefData::isAlto }, { "tenor", ClefSymbol::c, 4, &ClefData::setTenor, &ClefData::isTenor }, { "baritone", ClefSymbol::c, 5, &ClefData::setBaritone, &ClefData::isBaritone } };
    void clefs( pbt::Tape& t, pbt::Ctx& c )
    {
        ClefData x;
        x.symbol = gen::randomEnum<ClefSymbol>( t );
        x.line = t.around( -1, 7, 0 );
        x.octaveChange = t.chance( 1, 2 ) ? 0 : t.range( -2, 2 );
        x.tickTimePosition = t.range( 0, 5 );
        x.location = gen::randomEnum<ClefLocation>( t );
        const char* symbols[] = { "None", "G", "F", "C", "Percussion", "Tab", "Jianpu" };
        const auto text = [&]( const ClefData& d ) { return "Symbol " + std::string( symbols[(int)d.symbol] ) + ", Line " + std::to_string( d.line ) + ", OctaveChange " + std::to_string( d.octaveChange ); };
        c.input( text( x ) );
        c.nontrivial( text( x ) );
        if( x.toString() != text( x ) ) c.fail( "clef-text", "toString gives \"" + x.toString() + "\" instead of \"" + text( x ) + "\"" );
        for( auto& k : clefTable )
        {
            const bool should = x.symbol == k.symbol && x.line == k.line && x.octaveChange == 0;
            if( ( x.*k.is )() != should ) c.fail( std::string( "is:" ) + k.name, text( x ) + ( should ? " is not" : " is" ) + " taken as the " + k.name + " clef" );
            ClefData y = x;
            ( y.*k.set )();
            if( y.symbol != k.symbol || y.line != k.line || y.octaveChange != 0 ) c.fail( std::string( "set:" ) + k.name, std::string( "the " ) + k.name + " clef is set to " + text( y ) );
            if( y.tickTimePosition != x.tickTimePosition || y.location != x.location ) c.fail( std::string( "set-other:" ) + k.name, std::string( "setting the " ) + k.name + " clef changes its place" );
        }
    }
    PBT_PROPERTY( pbt::Property{ "A14", "clefs", "every generated clef", clefs, 10000, 100000 } );

    // ------------------------------------------------------------------ small helpers
    void helpers( pbt::Tape& t, pbt::Ctx& c )
    {
        PitchData p;
        gen::Opts o;
        o.density = 70;
        gen::fill( t, p, o );
        p.alter = t.around( -6, 6, 0 );
        c.input( "alter " + std::to_string( p.alter ) );
        c.nontrivial( std::to_string( p.alter ) + "," + std::to_string( (int)p.accidental ) );
        const Accidental table[] = { Accidental::tripleFlat, Accidental::flatFlat, Accidental::flat, Accidental::natural, Accidental::sharp, Accidental::doubleSharp, Accidental::tripleSharp };
        PitchData shown = p, expected = p;
        shown.showAccidental();
        expected.accidental = p.alter >= -3 && p.alter <= 3 ? table[p.alter + 3] : Accidental::none;
        if( !refl::differences( expected, shown ).empty() ) c.fail( "showAccidental", "showing the accidental of alteration " + std::to_string( p.alter ) + ": " + refl::differences( expected, shown )[0].path );
        PitchData hidden = p;
        expected = p;
        hidden.hideAccidental();
        expected.accidental = Accidental::none;
        expected.isAccidentalBracketed = expected.isAccidentalCautionary = expected.isAccidentalEditorial = expected.isAccidentalParenthetical = false;
        if( !refl::differences( expected, hidden ).empty() ) c.fail( "hideAccidental", "hiding the accidental: " + refl::differences( expected, hidden )[0].path );

        Extension e;
        e.setAlterValue( p.alter );
        const int clamped = std::max( -2, std::min( 2, p.alter ) );
        if( e.getAlterValue() != clamped ) c.fail( "alter-value", "an extension set to " + std::to_string( p.alter ) + " says " + std::to_string( e.getAlterValue() ) );
        Extension f;
        f.extensionAlter = gen::randomEnum<ExtensionAlter>( t );
        Extension g = f;
        g.setAlterValue( f.getAlterValue() );
        if( g.extensionAlter != f.extensionAlter ) c.fail( "alter-value-back", "an extension's alteration changes when it is set to its own value" );

        ColorData col;
        gen::fill( t, col, o );
        if( t.coin() ) col.red = t.pick<int>( { 0, 255, 1 } ), col.green = t.pick<int>( { 0, 255 } ), col.blue = t.pick<int>( { 0, 255 } );
        if( t.coin() ) col.alpha = t.pick<int>( { 0, 255 } );
        if( col.isBlack() != ( !col.red && !col.green && !col.blue && ( !col.isAlphaSpecified || col.alpha == 255 ) ) ) c.fail( "isBlack", "isBlack of " + std::to_string( col.red ) + " " + std::to_string( col.green ) + " " + std::to_string( col.blue ) );

        const Bool b = gen::randomEnum<Bool>( t );
        if( toBool( b ) != ( b == Bool::yes ) || isSpecified( b ) != ( b != Bool::unspecified ) || fromBool( true ) != Bool::yes || fromBool( false ) != Bool::no ) c.fail( "bool", "conversions of Bool" );

        const long double x = gen::randomDecimal( t, false ), delta = t.pick<double>( { 0, 1e-9, -1e-9, 1e-7, -1e-7, 1, -1 } );
        if( fabsl( x ) < 1e6L && areSame( x, x + delta ) != ( fabsl( delta ) < 5e-8L ) ) c.fail( "areSame", "areSame( " + refl::number( x ) + ", it plus " + refl::number( delta ) + " )" );

        TimeSignatureData u, v;
        u.beats = t.range( 1, 3 );
        v.beats = t.range( 1, 3 );
        u.beatType = t.pick<int>( { 4, 8 } );
        v.beatType = t.pick<int>( { 4, 8 } );
        u.symbol = gen::randomEnum<TimeSignatureSymbol>( t );
        v.symbol = gen::randomEnum<TimeSignatureSymbol>( t );
        u.isImplicit = t.coin();
        v.display = gen::randomEnum<Bool>( t );
        if( u.isEqualTo( v ) != ( u.beats == v.beats && u.beatType == v.beatType && u.symbol == v.symbol ) ) c.fail( "isEqualTo", "isEqualTo of time signatures" );

        TransposeData tr{ t.range( -2, 2 ), t.range( -2, 2 ) };
        if( tr.isUsed() != ( tr.chromatic || tr.diatonic ) ) c.fail( "transpose-used", "isUsed of a transposition" );

        const bool sys = t.coin(), page = t.coin();
        const LayoutData l{ sys, page };
        if( l.system.newSystem != ( sys ? Bool::yes : Bool::unspecified ) || l.page.newPage != ( page ? Bool::yes : Bool::unspecified ) || l.isUsed() != ( sys || page ) ) c.fail( "layout-constructor", "LayoutData{ " + std::to_string( sys ) + ", " + std::to_string( page ) + " }" );

        PageMarginsData pm;
        gen::fill( t, pm, o );
        if( t.coin() ) pm.even = pm.odd;
        if( pm.same() != refl::differences( pm, [&] { auto q = pm; std::swap( q.odd, q.even ); return q; }() ).empty() ) c.fail( "margins-same", "same() of page margins" );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "helpers", "every case; distinct by alteration and accidental", helpers, 30000, 400000 } );

    // ------------------------------------------------------------------ is anything set?
    // an untouched value says no; after any one of the fields that count is changed it says yes
    struct Count { size_t n = 0; template <class X> void leaf( const std::string&, X& ) { ++n; } template <class X> void size( const std::string&, X& ) { ++n; } };
    template <class T, class Is> void everyOne( pbt::Tape& t, pbt::Ctx& c, const char* what, Is is, const std::function<bool( const std::string& )>& counts )
    {
        if( is( gen::make<T>() ) ) c.fail( std::string( "untouched:" ) + what, std::string( "a new " ) + what + " says that something is set" );
        const size_t n = gen::places( gen::make<T>() );
        for( size_t i = 0; i < n; ++i )
        {
            T x = gen::make<T>();
            gen::Mutator m{ t, i };
            refl::walk( m, x );
            if( !m.done ) continue;
            c.evaluations( 1 );
            c.nontrivial( what + m.path + m.is );
            const bool should = counts( m.path );
            if( is( x ) != should ) c.fail( std::string( "set:" ) + what + "." + m.path, std::string( "a " ) + what + " of which only " + m.path + " was changed (to " + m.is + ") says that " + ( should ? "nothing" : "something" ) + " is set" );
        }
        // anything at all
        T x = gen::make<T>();
        gen::Opts o;
        o.density = t.pick<int>( { 5, 20, 60 } );
        gen::fill( t, x, o );
        bool any = false;
        const auto was = refl::flatten( gen::make<T>() ), now = refl::flatten( x );
        for( auto& d : refl::diff( was, now ) ) any = any || counts( d.path );
        if( is( x ) != any ) c.fail( std::string( "set-random:" ) + what, std::string( "a random " ) + what + ( any ? " with something set says nothing is" : " with nothing set says something is" ) );
    }
    void used( pbt::Tape& t, pbt::Ctx& c )
    {
        c.input( "every member of the types that can say whether anything is set" );
        const auto all = []( const std::string& ) { return true; };
        everyOne<SystemLayoutData>( t, c, "SystemLayoutData", []( const SystemLayoutData& x ) { return x.isUsed(); }, all );
        everyOne<PageMarginsData>( t, c, "PageMarginsData", []( const PageMarginsData& x ) { return x.isUsed(); }, all );
        everyOne<PageLayoutData>( t, c, "PageLayoutData", []( const PageLayoutData& x ) { return x.isUsed(); }, all );
        everyOne<SystemData>( t, c, "SystemData", []( const SystemData& x ) { return x.isUsed(); }, all );
        everyOne<PageData>( t, c, "PageData", []( const PageData& x ) { return x.isUsed(); }, all );
        everyOne<LayoutData>( t, c, "LayoutData", []( const LayoutData& x ) { return x.isUsed(); }, all );
        everyOne<DirectionData>( t, c, "DirectionData", []( const DirectionData& x ) { return !isDirectionDataEmpty( x ); }, []( const std::string& p ) { return p.find( "tickTimePosition" ) != 0 && p != "placement" && p != "voice" && p != "isStaffValueSpecified"; } );
        everyOne<LineData>( t, c, "LineData", []( const LineData& x ) { return x.isSpecified() || x.lineHook != LineHook::unspecified || x.isStopLengthSpecified; },
            []( const std::string& p ) { return p == "lineType" || p == "isDashLengthSpecified" || p == "isSpaceLengthSpecified" || p == "lineHook" || p == "isStopLengthSpecified"; } );
        everyOne<CurvePoints>( t, c, "CurvePoints", []( const CurvePoints& x ) { return x.isSpecified(); }, []( const std::string& p )
        {
            return p == "isBezierXSpecified" || p == "isBezierYSpecified" || p == "isBezierOffsetSpecified" || p == "positionData.placement"
                || ( p.find( "Specified" ) != std::string::npos && p.find( "positionData." ) == 0 );
        } );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "used", "a member was changed; distinct by member and value", used, 3000, 30000 } );

    void constants( pbt::Tape&, pbt::Ctx& c )
    {
        c.input( "version and date" );
        c.nontrivial( "version" );
        const std::string v = std::to_string( Version::getVersionMajor() ) + "." + std::to_string( Version::getVersionMinor() ) + "." + std::to_string( Version::getVersionPatch() );
        if( Version::getString().rfind( v + " (", 0 ) != 0 || Version::getString().back() != ')' ) c.fail( "version", "the version " + v + " is written " + Version::getString() );
        const time_t before = time( nullptr );
        const auto d = EncodingDate::today();
        const time_t after = time( nullptr );
        bool match = false;
        for( time_t x : { before, after } )
        {
            tm u{}, l{};
            gmtime_r( &x, &u );
            localtime_r( &x, &l );
            for( auto& y : { u, l } ) match = match || ( d.year == y.tm_year + 1900 && d.month == y.tm_mon + 1 && d.day == y.tm_mday );
        }
        if( !match ) c.fail( "today", "today is " + std::to_string( d.year ) + "-" + std::to_string( d.month ) + "-" + std::to_string( d.day ) );
    }
    PBT_PROPERTY( pbt::Property{ "A14", "constants", "every case", constants, 4, 4, 60, false, true } );
}
