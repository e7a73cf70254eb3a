// A13: every api enumeration value is written as its own MusicXML term and read back as itself.
// The expected term is derived from the name of the enumeration value by rule (letters and digits
// of the name equal those of the term), with a table of the exceptions.
#include "common/gen.h"
#include "common/score.h"
#include "common/xml.h"
#include "mx/api/SoundID.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <utility>

using namespace mx::api;
using xml::Node;

namespace
{
    // ------------------------------------------------------------------ names of enumeration values
    template <class E, E V> std::string nameOf()
    {
        std::string s = __PRETTY_FUNCTION__; // ... [E = mx::api::Stem, V = mx::api::Stem::up]
        s = s.substr( s.rfind( ':' ) + 1 );
        return s.substr( 0, s.find( ']' ) );
    }
    template <class E, int... I> std::vector<std::string> namesFrom( std::integer_sequence<int, I...> ) { return { nameOf<E, (E)( gen::EnumRange<E>::lo + I )>()... }; }
    template <class E> const std::vector<std::string>& names()
    {
        static const std::vector<std::string> n = namesFrom<E>( std::make_integer_sequence<int, gen::EnumRange<E>::hi - gen::EnumRange<E>::lo + 1>() );
        return n;
    }
    template <class E> std::string name( E e ) { return names<E>().at( (size_t)( (int)e - gen::EnumRange<E>::lo ) ); }

    std::string squeeze( const std::string& s )
    {
        std::string o;
        for( char c : s ) if( isalnum( (unsigned char)c ) ) o += (char)tolower( (unsigned char)c );
        return o;
    }

    // ------------------------------------------------------------------ scores with one thing in them
    struct Base
    {
        ScoreData s;
        Base()
        {
            PartData p;
            p.uniqueId = "P1";
            p.name = "n";
            MeasureData m;
            m.timeSignature.isImplicit = false;
            StaffData st;
            NoteData n;
            n.durationData.durationName = DurationName::quarter;
            n.durationData.durationTimeTicks = s.ticksPerQuarter;
            n.userRequestedVoiceNumber = 1;
            st.voices[0].notes.push_back( n );
            m.staves.push_back( st );
            p.measures.push_back( m );
            s.parts.push_back( p );
        }
        PartData& part() { return s.parts[0]; }
        MeasureData& measure() { return part().measures[0]; }
        NoteData& note() { return measure().staves[0].voices[0].notes[0]; }
        DirectionData& direction()
        {
            auto& d = measure().staves[0].directions;
            if( d.empty() ) d.emplace_back();
            return d[0];
        }
    };

    // ------------------------------------------------------------------ finding terms in documents
    const Node* find( const Node& n, const std::vector<std::string>& path, size_t i )
    {
        if( i == path.size() ) return &n;
        for( auto& k : n.kids )
        {
            if( k.name == path[i] ) if( auto r = find( k, path, i + 1 ) ) return r;
            if( auto r = find( k, path, i ) ) return r;
        }
        return nullptr;
    }
    // "a/b" names descendants, "@x" at the end an attribute, "*" at the end the name of the first child
    std::string term( const Node& root, const std::string& where )
    {
        std::vector<std::string> path;
        std::string attr, cur;
        for( char c : where + "/" )
            if( c == '/' ) { if( cur[0] == '@' ) attr = cur.substr( 1 ); else if( cur != "*" ) path.push_back( cur ); if( cur == "*" ) attr = "*"; cur.clear(); }
            else cur += c;
        const Node* n = find( root, path, 0 );
        if( !n ) return "(no " + where + ")";
        if( attr == "*" ) return n->kids.empty() ? "(nothing in " + where + ")" : n->kids[0].name;
        if( attr.empty() ) return n->text;
        auto a = n->attr( attr );
        return a ? *a : "(no " + where + ")";
    }

    struct Entry
    {
        std::string vocabulary, value; // of the api
        ScoreData score;
        std::vector<std::pair<std::string, std::string>> terms; // where and what; exact
        bool loose = false; // compare letters and digits only
        std::function<std::string( const ScoreData& )> check; // more to check about what is read back
    };
    struct Vocabulary
    {
        std::vector<Entry> entries;

        // all values of an enumeration, but some
        template <class E> void add( const std::string& vocabulary, const std::string& where, const std::function<void( Base&, E )>& set, const std::set<E>& except = {}, const std::map<E, std::string>& table = {} )
        {
            for( int i = gen::EnumRange<E>::lo; i <= gen::EnumRange<E>::hi; ++i )
            {
                const E e = (E)i;
                if( except.count( e ) ) continue;
                Base b;
                set( b, e );
                Entry x;
                x.vocabulary = vocabulary;
                x.value = name( e );
                x.score = b.s;
                const auto found = table.find( e );
                x.loose = found == table.end();
                x.terms.emplace_back( where, x.loose ? x.value : found->second );
                entries.push_back( x );
            }
        }
        void one( const std::string& vocabulary, const std::string& value, Base b, std::vector<std::pair<std::string, std::string>> terms )
        {
            Entry x;
            x.vocabulary = vocabulary;
            x.value = value;
            x.score = b.s;
            x.terms = std::move( terms );
            entries.push_back( x );
        }
    };

    template <class P> void positions( Vocabulary& v, const std::string& what, const std::string& where, P position )
    {
        v.add<Placement>( what + " placement", where + "/@placement", [=]( Base& b, Placement e ) { position( b ).placement = e; }, { Placement::unspecified } );
    }
    bool inRange( MarkType m, MarkType lo, MarkType hi ) { return m >= lo && m <= hi; }

    const std::map<DurationName, std::string>& noteTypes()
    {
        static const std::map<DurationName, std::string> t{ { DurationName::longa, "long" }, { DurationName::dur16th, "16th" }, { DurationName::dur32nd, "32nd" }, { DurationName::dur64th, "64th" },
            { DurationName::dur128th, "128th" }, { DurationName::dur256th, "256th" }, { DurationName::dur512th, "512th" }, { DurationName::dur1024th, "1024th" } };
        return t;
    }
    std::string kebab( const std::string& s )
    {
        std::string o;
        for( char c : s ) { if( isupper( (unsigned char)c ) ) { o += '-'; o += (char)tolower( (unsigned char)c ); } else o += c; }
        return o;
    }

    const Vocabulary& vocabulary()
    {
        static const Vocabulary theOne = []
        {
            Vocabulary v;
            // ------------------------------------------------------------ notes
            v.add<DurationName>( "note type", "note/type", []( Base& b, DurationName e ) { b.note().durationData.durationName = e; }, { DurationName::unspecified }, noteTypes() );
            v.add<DurationName>( "time modification type", "time-modification/normal-type", []( Base& b, DurationName e )
            {
                auto& d = b.note().durationData;
                if( e == d.durationName ) d.durationName = DurationName::half; // it is not written when it is the same
                d.timeModificationActualNotes = 3;
                d.timeModificationNormalNotes = 2;
                d.timeModificationNormalType = e;
            }, { DurationName::unspecified }, noteTypes() );
            v.add<Accidental>( "accidental", "note/accidental", []( Base& b, Accidental e ) { b.note().pitchData.accidental = e; }, { Accidental::none } );
            for( int i = gen::EnumRange<Accidental>::lo + 1; i <= gen::EnumRange<Accidental>::hi; ++i )
            {
                Base b;
                KeyData k;
                KeyComponent kc;
                kc.step = Step::d;
                kc.alter = 1;
                kc.accidental = (Accidental)i;
                k.nonTraditional.push_back( kc );
                b.measure().keys.push_back( k );
                v.one( "key accidental", name( (Accidental)i ), b, { { "key/key-accidental", name( (Accidental)i ) } } );
                v.entries.back().loose = true;
            }
            v.add<Step>( "pitch step", "pitch/step", []( Base& b, Step e ) { b.note().pitchData.step = e; }, { Step::unspecified } );
            v.add<Step>( "display step", "unpitched/display-step", []( Base& b, Step e ) { b.note().isUnpitched = true; b.note().isDisplayStepOctaveSpecified = true; b.note().pitchData.step = e; }, { Step::unspecified } );
            v.add<Step>( "rest display step", "rest/display-step", []( Base& b, Step e ) { b.note().isRest = true; b.note().isDisplayStepOctaveSpecified = true; b.note().pitchData.step = e; }, { Step::unspecified } );
            v.add<Step>( "key step", "key/key-step", []( Base& b, Step e ) { KeyData k; KeyComponent kc; kc.step = e; kc.alter = 1; k.nonTraditional.push_back( kc ); b.measure().keys.push_back( k ); }, { Step::unspecified } );
            v.add<Notehead>( "notehead", "note/notehead", []( Base& b, Notehead e ) { b.note().notehead = e; }, { Notehead::normal } );
            v.add<Stem>( "stem", "note/stem", []( Base& b, Stem e ) { b.note().stem = e; }, { Stem::unspecified }, { { Stem::both, "double" } } );
            v.add<Beam>( "beam", "note/beam", []( Base& b, Beam e ) { b.note().durationData.durationName = DurationName::eighth; b.note().beams.push_back( e ); }, { Beam::unspecified },
                { { Beam::extend, "continue" }, { Beam::forwardBroken, "forward hook" }, { Beam::backwardBroken, "backward hook" } } );
            {
                Base g;
                g.note().noteType = NoteType::grace;
                g.note().durationData.durationTimeTicks = 0;
                v.one( "note kind", "grace", g, { { "note/*", "grace" } } );
                Base c;
                c.note().noteType = NoteType::cue;
                v.one( "note kind", "cue", c, { { "note/*", "cue" } } );
                Base n;
                v.one( "note kind", "normal", n, { { "note/*", "pitch" } } );
                Base r;
                r.note().isRest = true;
                v.one( "note kind", "rest", r, { { "note/*", "rest" } } );
                Base u;
                u.note().isUnpitched = true;
                u.note().isDisplayStepOctaveSpecified = true;
                v.one( "note kind", "unpitched", u, { { "note/*", "unpitched" } } );
                Base m;
                m.note().isRest = m.note().isMeasureRest = true;
                v.one( "note kind", "measure rest", m, { { "note/rest/@measure", "yes" } } );
                for( int start = 0; start < 2; ++start )
                {
                    Base t;
                    ( start ? t.note().isTieStart : t.note().isTieStop ) = true;
                    v.one( "tie", start ? "start" : "stop", t, { { "note/tie/@type", start ? "start" : "stop" } } );
                }
            }
            struct Flag { const char* n; bool PitchData::*f; const char* at; };
            for( auto f : { Flag{ "parenthetical", &PitchData::isAccidentalParenthetical, "parentheses" }, Flag{ "cautionary", &PitchData::isAccidentalCautionary, "cautionary" }, Flag{ "editorial", &PitchData::isAccidentalEditorial, "editorial" }, Flag{ "bracketed", &PitchData::isAccidentalBracketed, "bracket" } } )
            {
                Base b;
                b.note().pitchData.accidental = Accidental::sharp;
                b.note().pitchData.*( f.f ) = true;
                std::vector<std::pair<std::string, std::string>> terms{ { std::string( "accidental/@" ) + f.at, "yes" } };
                v.one( "accidental display", f.n, b, terms );
            }
            v.add<Bool>( "print object", "note/@print-object", []( Base& b, Bool e ) { b.note().printData.printObject = e; }, { Bool::unspecified } );

            // ------------------------------------------------------------ marks
            for( int i = (int)MarkType::unspecified + 1; i <= gen::EnumRange<MarkType>::hi; ++i )
            {
                const MarkType m = (MarkType)i;
                const std::string n = name( m );
                if( n.find( "nknown" ) != std::string::npos || m == MarkType::pedal || m == MarkType::damp ) continue;
                Base b;
                MarkData d{ m };
                if( n.rfind( "other", 0 ) == 0 ) d.name = "abc";
                b.note().noteAttachmentData.marks.push_back( d );
                std::vector<std::pair<std::string, std::string>> terms;
                std::string kind;
                bool loose = false;
                if( m == MarkType::customAccentTenuto ) { kind = "custom"; terms.push_back( { "notations/articulations/*", "other-articulation" } ); }
                else if( inRange( m, MarkType::accent, MarkType::otherArticulation ) ) { kind = "articulation"; terms.push_back( { "notations/articulations/*", kebab( n ) } ); }
                else if( m == MarkType::otherDynamics ) { kind = "dynamic"; terms.push_back( { "notations/dynamics/*", "other-dynamics" } ); }
                else if( inRange( m, MarkType::p, MarkType::otherDynamics ) ) { kind = "dynamic"; terms.push_back( { "notations/dynamics/*", n } ); }
                else if( n.rfind( "tremoloSingle", 0 ) == 0 )
                {
                    kind = "tremolo";
                    terms.push_back( { "notations/ornaments/*", "tremolo" } );
                    terms.push_back( { "notations/ornaments/tremolo", std::to_string( 1 + (int)m - (int)MarkType::tremoloSingleOne ) } );
                    if( numTremoloSlashes( m ) != 1 + (int)m - (int)MarkType::tremoloSingleOne ) terms.push_back( { "numTremoloSlashes", n } );
                }
                else if( inRange( m, MarkType::trillMark, MarkType::otherOrnament ) ) { kind = "ornament"; terms.push_back( { "notations/ornaments/*", kebab( n ) } ); }
                else if( n.rfind( "accidentalMark", 0 ) == 0 ) { kind = "accidental mark"; terms.push_back( { "notations/accidental-mark", n.substr( 14 ) } ); loose = true; }
                else if( inRange( m, MarkType::upBow, MarkType::otherTechnical ) ) { kind = "technical"; terms.push_back( { "notations/technical/*", kebab( n ) } ); }
                else if( n.rfind( "fermata", 0 ) == 0 )
                {
                    kind = "fermata";
                    std::string rest = n.substr( 7 );
                    for( const char* type : { "Upright", "Inverted" } )
                    {
                        const auto at = rest.find( type );
                        if( at == std::string::npos ) continue;
                        rest.resize( at );
                        terms.push_back( { "notations/fermata/@type", kebab( type ).substr( 1 ) } );
                    }
                    if( terms.empty() ) terms.push_back( { "notations/fermata/@type", "(no notations/fermata/@type)" } );
                    terms.push_back( { "notations/fermata", rest.empty() ? "" : kebab( rest ).substr( 1 ) } );
                }
                else if( inRange( m, MarkType::arpeggiate, MarkType::arpeggiateUp ) )
                {
                    kind = "arpeggiate";
                    terms.push_back( { "notations/arpeggiate/@direction", m == MarkType::arpeggiate ? "(no notations/arpeggiate/@direction)" : m == MarkType::arpeggiateUp ? "up" : "down" } );
                    terms.push_back( { "notations/*", "arpeggiate" } );
                }
                else if( m == MarkType::nonArpeggiate ) continue; // the data does not say which end it is, and nothing is written (recorded for A06)
                else kind = "unclassified", terms.push_back( { "notations/*", n } );
                v.one( "mark: " + kind, n, b, terms );
                v.entries.back().loose = loose;
                // in directions
                if( kind == "dynamic" )
                {
                    Base c;
                    c.direction().marks.push_back( d );
                    v.one( "direction mark", n, c, { { "direction-type/dynamics/*", m == MarkType::otherDynamics ? "other-dynamics" : n } } );
                }
            }
            // ------------------------------------------------------------ attributes of measures
            v.add<ClefSymbol>( "clef", "clef/sign", []( Base& b, ClefSymbol e ) { ClefData c; c.symbol = e; c.line = 3; b.measure().staves[0].clefs.push_back( c ); }, {},
                { { ClefSymbol::g, "G" }, { ClefSymbol::f, "F" }, { ClefSymbol::c, "C" }, { ClefSymbol::tab, "TAB" }, { ClefSymbol::percussion, "percussion" }, { ClefSymbol::none, "none" }, { ClefSymbol::jianpu, "jianpu" } } );
            v.add<KeyMode>( "key mode", "key/mode", []( Base& b, KeyMode e ) { KeyData k; k.fifths = 2; k.mode = e; b.measure().keys.push_back( k ); }, { KeyMode::unspecified, KeyMode::unsupported } );
            v.add<TimeSignatureSymbol>( "time symbol", "time/@symbol", []( Base& b, TimeSignatureSymbol e ) { b.measure().timeSignature.symbol = e; }, { TimeSignatureSymbol::unspecified } );
            v.add<BarlineType>( "barline", "barline/bar-style", []( Base& b, BarlineType e ) { BarlineData d; d.tickTimePosition = TICK_TIME_INFINITY; d.location = HorizontalAlignment::right; d.barlineType = e; b.measure().barlines.push_back( d ); }, { BarlineType::unspecified, BarlineType::unsupported },
                { { BarlineType::normal, "regular" } } );
            v.add<EndingType>( "ending", "ending/@type", []( Base& b, EndingType e ) { BarlineData d; d.tickTimePosition = TICK_TIME_INFINITY; d.location = HorizontalAlignment::right; d.barlineType = BarlineType::normal; d.endingType = e; d.endingNumber = 1; b.measure().barlines.push_back( d ); }, { EndingType::none } );
            for( auto e : { HorizontalAlignment::left, HorizontalAlignment::center, HorizontalAlignment::right } )
            {
                Base b;
                BarlineData d;
                d.tickTimePosition = e == HorizontalAlignment::left ? 0 : e == HorizontalAlignment::right ? TICK_TIME_INFINITY : b.s.ticksPerQuarter;
                d.location = e;
                d.barlineType = BarlineType::normal;
                if( e == HorizontalAlignment::center ) { auto& notes = b.measure().staves[0].voices[0].notes; notes.push_back( notes[0] ); notes[1].tickTimePosition = b.s.ticksPerQuarter; }
                b.measure().barlines.push_back( d );
                v.one( "barline location", name( e ), b, { { "barline/@location", e == HorizontalAlignment::center ? "middle" : name( e ) } } );
                if( e == HorizontalAlignment::center ) continue;
                b.measure().barlines[0].repeat = true;
                v.one( "repeat", name( e ), b, { { "barline/repeat/@direction", e == HorizontalAlignment::left ? "forward" : "backward" } } );
            }
            // ------------------------------------------------------------ directions
            v.add<Placement>( "direction placement", "direction/@placement", []( Base& b, Placement e ) { b.direction().placement = e; b.direction().segnos.emplace_back(); }, { Placement::unspecified } );
            v.add<WedgeType>( "wedge", "direction-type/wedge/@type", []( Base& b, WedgeType e ) { WedgeStart w; w.wedgeType = e; b.direction().wedgeStarts.push_back( w ); }, { WedgeType::unspecified } );
            v.add<LineType>( "wedge line", "direction-type/wedge/@line-type", []( Base& b, LineType e ) { WedgeStart w; w.wedgeType = WedgeType::crescendo; w.lineData.lineType = e; b.direction().wedgeStarts.push_back( w ); }, { LineType::unspecified } );
            v.add<LineHook>( "bracket hook", "direction-type/bracket/@line-end", []( Base& b, LineHook e ) { SpannerStart w; w.lineData.lineType = LineType::solid; w.lineData.lineHook = e; b.direction().bracketStarts.push_back( w ); }, { LineHook::unspecified } );
            v.add<LineType>( "bracket line", "direction-type/bracket/@line-type", []( Base& b, LineType e ) { SpannerStart w; w.lineData.lineHook = LineHook::up; w.lineData.lineType = e; b.direction().bracketStarts.push_back( w ); }, { LineType::unspecified } );
            struct O { OttavaType t; const char* type; const char* size; };
            // "a treble clef line noted with 8va will be indicated with an octave-shift down"
            for( auto o : { O{ OttavaType::o8va, "down", "8" }, O{ OttavaType::o8vb, "up", "8" }, O{ OttavaType::o15ma, "down", "15" }, O{ OttavaType::o15mb, "up", "15" } } )
            {
                Base b;
                OttavaStart s;
                s.ottavaType = o.t;
                b.direction().ottavaStarts.push_back( s );
                v.one( "ottava direction", name( o.t ), b, { { "octave-shift/@type", o.type } } );
                v.one( "ottava size", name( o.t ), b, { { "octave-shift/@size", o.size } } );
            }
            v.add<DurationName>( "beat unit", "metronome/beat-unit", []( Base& b, DurationName e ) { TempoData t; t.tempoType = TempoType::beatsPerMinute; t.beatsPerMinute.durationName = e; t.beatsPerMinute.beatsPerMinute = 60; t.beatsPerMinute.dots = 0; b.direction().tempos.push_back( t ); }, { DurationName::unspecified }, noteTypes() );
            v.add<ChordKind>( "chord kind", "harmony/kind", []( Base& b, ChordKind e ) { ChordData c; c.chordKind = e; b.direction().chords.push_back( c ); }, { ChordKind::unspecified } );
            v.add<Step>( "chord root", "harmony/root/root-step", []( Base& b, Step e ) { ChordData c; c.root = e; c.chordKind = ChordKind::major; b.direction().chords.push_back( c ); }, { Step::unspecified } );
            v.add<Step>( "chord bass", "harmony/bass/bass-step", []( Base& b, Step e ) { ChordData c; c.bass = e; c.chordKind = ChordKind::major; b.direction().chords.push_back( c ); }, { Step::unspecified } );
            const auto extension = []( Base& b ) -> Extension& { ChordData c; c.chordKind = ChordKind::major; c.extensions.emplace_back(); b.direction().chords.push_back( c ); return b.direction().chords[0].extensions[0]; };
            v.add<ExtensionType>( "chord extension", "degree/degree-type", [=]( Base& b, ExtensionType e ) { extension( b ).extensionType = e; }, {}, { { ExtensionType::remove, "subtract" } } );
            v.add<ExtensionNumber>( "chord degree", "degree/degree-value", [=]( Base& b, ExtensionNumber e ) { extension( b ).extensionNumber = e; }, {},
                { { ExtensionNumber::first, "1" }, { ExtensionNumber::second, "2" }, { ExtensionNumber::third, "3" }, { ExtensionNumber::fourth, "4" }, { ExtensionNumber::fifth, "5" }, { ExtensionNumber::sixth, "6" }, { ExtensionNumber::seventh, "7" }, { ExtensionNumber::ninth, "9" }, { ExtensionNumber::eleventh, "11" }, { ExtensionNumber::thirteenth, "13" } } );
            v.add<ExtensionAlter>( "chord degree alter", "degree/degree-alter", [=]( Base& b, ExtensionAlter e ) { extension( b ).extensionAlter = e; }, {},
                { { ExtensionAlter::none, "0" }, { ExtensionAlter::flat, "-1" }, { ExtensionAlter::sharp, "1" }, { ExtensionAlter::doubleFlat, "-2" }, { ExtensionAlter::doubleSharp, "2" } } );
            {
                Base s, c, r, w, wd;
                s.direction().segnos.emplace_back();
                v.one( "direction", "segno", s, { { "direction-type/*", "segno" } } );
                c.direction().codas.emplace_back();
                v.one( "direction", "coda", c, { { "direction-type/*", "coda" } } );
                RehearsalData rd;
                rd.text = "A";
                r.direction().rehearsals.push_back( rd );
                v.one( "direction", "rehearsal", r, { { "direction-type/*", "rehearsal" }, { "direction-type/rehearsal", "A" } } );
                w.direction().wedgeStops.emplace_back();
                v.one( "direction", "wedge stop", w, { { "wedge/@type", "stop" } } );
                WordsData words;
                words.text = "dolce";
                wd.direction().words.push_back( words );
                v.one( "direction", "words", wd, { { "direction-type/*", "words" }, { "direction-type/words", "dolce" } } );
                Base o, bk;
                o.direction().ottavaStops.emplace_back();
                v.one( "direction", "ottava stop", o, { { "octave-shift/@type", "stop" } } );
                bk.direction().bracketStops.emplace_back();
                v.one( "direction", "bracket stop", bk, { { "bracket/@type", "stop" } } );
            }
            // ------------------------------------------------------------ fonts and positions
            const auto words = []( Base& b ) -> WordsData& { WordsData w; w.text = "dolce"; b.direction().words.push_back( w ); return b.direction().words[0]; };
            v.add<FontStyle>( "font style", "words/@font-style", [=]( Base& b, FontStyle e ) { words( b ).fontData.style = e; }, { FontStyle::unspecified } );
            v.add<FontWeight>( "font weight", "words/@font-weight", [=]( Base& b, FontWeight e ) { words( b ).fontData.weight = e; }, { FontWeight::unspecified } );
            v.add<CssSize>( "font size", "words/@font-size", [=]( Base& b, CssSize e ) { words( b ).fontData.sizeType = FontSizeType::css; words( b ).fontData.sizeCss = e; b.direction().words.resize( 1 ); b.direction().words[0].fontData.sizeType = FontSizeType::css; b.direction().words[0].fontData.sizeCss = e; }, { CssSize::unspecified } );
            const auto credit = []( Base& b ) -> PageTextData& { PageTextData p; p.text = "t"; p.pageNumber = 1; b.s.pageTextItems.push_back( p ); return b.s.pageTextItems[0]; };
            v.add<VerticalAlignment>( "vertical alignment", "credit/credit-words/@valign", [=]( Base& b, VerticalAlignment e ) { credit( b ).positionData.verticalAlignment = e; }, { VerticalAlignment::unspecified } );
            v.add<HorizontalAlignment>( "horizontal alignment", "credit/credit-words/@halign", [=]( Base& b, HorizontalAlignment e ) { credit( b ).positionData.horizontalAlignmnet = e; }, { HorizontalAlignment::unspecified } );
            // ------------------------------------------------------------ curves and tuplets
            for( auto type : { CurveType::slur, CurveType::tie } )
            {
                const std::string el = type == CurveType::slur ? "notations/slur" : "notations/tied";
                const auto start = [=]( Base& b ) -> CurveStart& { b.note().noteAttachmentData.curveStarts.emplace_back( type ); return b.note().noteAttachmentData.curveStarts[0]; };
                v.add<CurveOrientation>( name( type ) + " orientation", el + "/@orientation", [=]( Base& b, CurveOrientation e ) { start( b ).curveOrientation = e; }, { CurveOrientation::unspecified }, { { CurveOrientation::overhand, "over" }, { CurveOrientation::underhand, "under" } } );
                v.add<LineType>( name( type ) + " line", el + "/@line-type", [=]( Base& b, LineType e ) { start( b ).lineData.lineType = e; }, { LineType::unspecified } );
                Base s, c, e;
                start( s );
                v.one( name( type ), "start", s, { { el + "/@type", "start" } } );
                c.note().noteAttachmentData.curveContinuations.emplace_back( type );
                v.one( name( type ), "continue", c, { { el + "/@type", "continue" } } );
                e.note().noteAttachmentData.curveStops.emplace_back( type );
                v.one( name( type ), "stop", e, { { el + "/@type", "stop" } } );
            }
            const auto tuplet = []( Base& b ) -> TupletStart&
            {
                TupletStart t;
                t.actualNumber = 3;
                t.actualDurationName = DurationName::eighth;
                t.normalNumber = 2;
                t.normalDurationName = DurationName::eighth;
                b.note().noteAttachmentData.tupletStarts.push_back( t );
                return b.note().noteAttachmentData.tupletStarts[0];
            };
            v.add<DurationName>( "tuplet actual type", "tuplet/tuplet-actual/tuplet-type", [=]( Base& b, DurationName e ) { tuplet( b ).actualDurationName = e; }, { DurationName::unspecified }, noteTypes() );
            v.add<DurationName>( "tuplet normal type", "tuplet/tuplet-normal/tuplet-type", [=]( Base& b, DurationName e ) { tuplet( b ).normalDurationName = e; }, { DurationName::unspecified }, noteTypes() );
            v.add<Bool>( "tuplet bracket", "tuplet/@bracket", [=]( Base& b, Bool e ) { tuplet( b ).bracket = e; }, { Bool::unspecified } );
            // ------------------------------------------------------------ parts and score
            v.add<SoundID>( "sound", "score-instrument/instrument-sound", []( Base& b, SoundID e ) { b.part().instrumentData.uniqueId = "I1"; b.part().instrumentData.name = "x"; b.part().instrumentData.soundID = e; }, { SoundID::unspecified, SoundID::errorBadString } );
            v.add<SoloOrEnsemble>( "solo or ensemble", "score-instrument/*", []( Base& b, SoloOrEnsemble e ) { b.part().instrumentData.uniqueId = "I1"; b.part().instrumentData.name = "x"; b.part().instrumentData.soloOrEnsemble = e; }, { SoloOrEnsemble::unspecified } );
            for( auto e : { SoloOrEnsemble::solo, SoloOrEnsemble::ensemble } )
            {
                auto& x = v.entries[v.entries.size() - ( e == SoloOrEnsemble::solo ? 2 : 1 )];
                x.terms = { { "score-instrument/" + name( e ), "" } };
            }
            v.add<BracketType>( "group symbol", "part-group/group-symbol", []( Base& b, BracketType e )
            {
                b.s.parts.push_back( b.s.parts[0] );
                b.s.parts[1].uniqueId = "P2";
                PartGroupData g;
                g.firstPartIndex = 0;
                g.lastPartIndex = 1;
                g.number = 1;
                g.bracketType = e;
                b.s.partGroups.push_back( g );
            }, { BracketType::unspecified } );
            for( auto e : { AppearanceType::LineWidth, AppearanceType::NoteSize, AppearanceType::Distance, AppearanceType::OtherAppearance } )
            {
                Base b;
                AppearanceData a;
                a.appearanceType = e;
                a.appearanceSubType = e == AppearanceType::NoteSize ? "cue" : "beam";
                a.value = 3;
                b.s.defaults.appearance.push_back( a );
                const char* el = e == AppearanceType::LineWidth ? "line-width" : e == AppearanceType::NoteSize ? "note-size" : e == AppearanceType::Distance ? "distance" : "other-appearance";
                v.one( "appearance", name( e ), b, { { "appearance/*", el } } );
            }
            for( const char* n : { "cue", "grace", "large" } )
            {
                Base b;
                AppearanceData a;
                a.appearanceType = AppearanceType::NoteSize;
                a.appearanceSubType = n;
                a.value = 3;
                b.s.defaults.appearance.push_back( a );
                v.one( "note size", n, b, { { "appearance/note-size/@type", n } } );
            }
            return v;
        }();
        return theOne;
    }

    void enumerated( pbt::Tape&, pbt::Ctx& c )
    {
        const auto& all = vocabulary().entries;
        if( c.caseIndex >= all.size() ) throw pbt::Discard{}; // the library cannot be called before main, to count them
        const Entry& e = all[c.caseIndex];
        c.input( e.vocabulary + ": " + e.value );
        c.nontrivial( e.vocabulary + ": " + e.value );
        c.tag( e.vocabulary );
        std::string text;
        const std::string id = squeeze( e.vocabulary ) + "-" + e.value;
        ScoreData back;
        try { back = score::trip( e.score, score::Way::text, text ); }
        catch( const std::exception& x ) { c.fail( "throws:" + id, e.vocabulary + ": " + e.value + ": " + x.what() ); return; }
        const auto p = xml::parse( text );
        if( !p.ok ) { c.fail( "not-well-formed:" + id, p.error ); return; }
        for( auto& t : e.terms )
        {
            const std::string got = term( p.root, t.first );
            if( e.loose ? squeeze( got ) != squeeze( t.second ) : got != t.second )
                c.fail( "term:" + id, e.vocabulary + ": " + e.value + " is written as \"" + got + "\" in " + t.first + " instead of \"" + t.second + "\"" );
        }
        auto d = refl::differences( e.score, back );
        const auto ends = []( const std::string& t, const std::string& end ) { return t.size() >= end.size() && t.compare( t.size() - end.size(), end.size(), end ) == 0; };
        d.erase( std::remove_if( d.begin(), d.end(), [&]( const refl::Difference& x )
        {
            // marks are named by their terms when they are read; ties are also given as curves
            return ( x.path.find( ".marks[" ) != std::string::npos && ends( x.path, ".name" ) && x.left.find( "abc" ) == std::string::npos )
                || ( e.vocabulary == "tie" && x.path.find( ".curveSt" ) != std::string::npos );
        } ), d.end() );
        if( !d.empty() ) c.fail( "back:" + id, e.vocabulary + ": " + e.value + " is read back differently: " + d[0].path + ": " + d[0].left + " became " + d[0].right );
    }
    PBT_PROPERTY( pbt::Property{ "A13", "terms", "every member of every vocabulary, once", enumerated, 2000, 2000, 60, false, true } );

    // all values of one vocabulary are different terms, and the terms are those of the schema
    void marks( pbt::Tape&, pbt::Ctx& c )
    {
        const MarkType m = (MarkType)( (int)c.caseIndex + gen::EnumRange<MarkType>::lo );
        const std::string n = name( m );
        c.input( n );
        c.nontrivial( n );
        const auto in = [&]( MarkType lo, MarkType hi ) { return inRange( m, lo, hi ); };
        const auto test = [&]( const char* what, bool is, bool should ) { if( is != should ) c.fail( std::string( what ) + ":" + n, std::string( what ) + "( " + n + " ) is " + ( is ? "true" : "false" ) ); };
        test( "isMarkArticulation", isMarkArticulation( m ), in( MarkType::accent, MarkType::otherArticulation ) );
        test( "isMarkDynamic", isMarkDynamic( m ), in( MarkType::p, MarkType::otherDynamics ) );
        test( "isMarkOrnament", isMarkOrnament( m ), in( MarkType::trillMark, MarkType::unknownOrnament ) );
        test( "isMarkTechnical", isMarkTechnical( m ), in( MarkType::upBow, MarkType::otherTechnical ) );
        test( "isMarkFermata", isMarkFermata( m ), in( MarkType::fermata, MarkType::fermataSquareInverted ) );
        test( "isMarkTremolo", isMarkTremolo( m ), in( MarkType::tremoloSingleOne, MarkType::tremoloSingleFive ) );
        test( "isMarkArpeggiate", isMarkArpeggiate( m ), in( MarkType::arpeggiate, MarkType::arpeggiateUp ) );
        test( "isMarkNonArpeggiate", isMarkNonArpeggiate( m ), m == MarkType::nonArpeggiate );
        test( "isMarkPedal", isMarkPedal( m ), m == MarkType::pedal || m == MarkType::damp );
        test( "isMarkCustom", isMarkCustom( m ), m == MarkType::customAccentTenuto );
        const int slashes = in( MarkType::tremoloSingleOne, MarkType::tremoloSingleFive ) ? 1 + (int)m - (int)MarkType::tremoloSingleOne : -1;
        if( numTremoloSlashes( m ) != slashes ) c.fail( "numTremoloSlashes:" + n, "numTremoloSlashes( " + n + " ) is " + std::to_string( numTremoloSlashes( m ) ) );
        if( !getCustomMarkName( m ).empty() && getMarkTypeFromCustomString( getCustomMarkName( m ) ) != m ) c.fail( "custom-name:" + n, "the custom name of " + n + " does not lead back" );
        MarkData a{ m }, b{ Placement::above, m };
        if( a.markType != m || b.markType != m || b.positionData.placement != Placement::above || a.name != b.name ) c.fail( "constructor:" + n, "MarkData constructed from " + n + " does not hold it" );
    }
    PBT_PROPERTY( pbt::Property{ "A13", "marks", "every mark type, once", marks, (uint64_t)gen::EnumRange<MarkType>::hi - gen::EnumRange<MarkType>::lo + 1, (uint64_t)gen::EnumRange<MarkType>::hi - gen::EnumRange<MarkType>::lo + 1, 60, false, true } );

    void sounds( pbt::Tape&, pbt::Ctx& c )
    {
        const SoundID s = (SoundID)( (int)c.caseIndex + gen::EnumRange<SoundID>::lo );
        const std::string n = name( s );
        c.input( n );
        c.nontrivial( n );
        if( s == SoundID::unspecified || s == SoundID::errorBadString ) return;
        const std::string text = SoundIDToString( s );
        if( squeeze( text ) != squeeze( n ) ) c.fail( "sound-name:" + n, "SoundIDToString( " + n + " ) is " + text );
        if( SoundIDFromString( text ) != s ) c.fail( "sound-back:" + n, "SoundIDFromString( " + text + " ) is not " + n );
    }
    PBT_PROPERTY( pbt::Property{ "A13", "sounds", "every sound id, once", sounds, (uint64_t)gen::EnumRange<SoundID>::hi - gen::EnumRange<SoundID>::lo + 1, (uint64_t)gen::EnumRange<SoundID>::hi - gen::EnumRange<SoundID>::lo + 1, 60, false, true } );

    // ------------------------------------------------------------------ alterations
    // the value of decimal text in units of 1e-12, exactly
    long long exact( const std::string& s )
    {
        bool neg = false;
        size_t i = 0;
        if( s[i] == '-' || s[i] == '+' ) neg = s[i++] == '-';
        long long whole = 0, frac = 0;
        int digits = 0;
        for( ; i < s.size() && s[i] != '.'; ++i ) whole = whole * 10 + ( s[i] - '0' );
        if( i < s.size() ) for( ++i; i < s.size() && digits < 12; ++i, ++digits ) frac = frac * 10 + ( s[i] - '0' );
        for( ; digits < 12; ++digits ) frac *= 10;
        const long long v = whole * 1000000000000ll + frac;
        return neg ? -v : v;
    }
    std::string decimal( long long units, int digits ) // units of 10^-digits
    {
        const bool neg = units < 0;
        std::string s = std::to_string( neg ? -units : units );
        while( (int)s.size() <= digits ) s = "0" + s;
        if( digits ) s.insert( s.size() - digits, "." );
        return ( neg ? "-" : "" ) + s;
    }
    void alterations( pbt::Tape& t, pbt::Ctx& c )
    {
        const bool key = t.chance( 1, 4 );
        // from text: a decimal with up to five digits
        const int digits = t.range( 0, 5 );
        long long scale = 1;
        for( int i = 0; i < digits; ++i ) scale *= 10;
        const long long units = (long long)t.around( -9, 9, 0 ) * scale + ( t.coin() ? 1 : -1 ) * (long long)t.below( (uint32_t)scale );
        const std::string text = decimal( units, digits );
        c.input( ( key ? "key alteration " : "alteration " ) + text );
        c.nontrivial( text + ( key ? "k" : "" ) );
        const std::string note = "<note><pitch><step>D</step>" + ( key ? std::string() : "<alter>" + text + "</alter>" ) + "<octave>4</octave></pitch><duration>1</duration></note>";
        const std::string at = "<attributes><divisions>1</divisions>" + ( key ? "<key><key-step>D</key-step><key-alter>" + text + "</key-alter></key>" : std::string() ) + "</attributes>";
        const std::string doc = "<?xml version=\"1.0\"?><score-partwise version=\"3.0\"><part-list><score-part id=\"P1\"><part-name>n</part-name></score-part></part-list><part id=\"P1\"><measure number=\"1\">" + at + note + "</measure></part></score-partwise>";
        const ScoreData s = score::read( doc );
        const auto& m = s.parts.at( 0 ).measures.at( 0 );
        int alter = 0;
        double cents = 0;
        if( key )
        {
            const auto& k = m.keys.at( 0 ).nonTraditional.at( 0 );
            alter = k.alter;
            cents = k.cents;
        }
        else
        {
            const auto& p = m.staves.at( 0 ).voices.at( 0 ).notes.at( 0 ).pitchData;
            alter = p.alter;
            cents = p.cents;
        }
        const long double value = (long double)units / scale;
        if( fabsl( alter + cents / 100.0L - value ) > 1e-6L ) c.fail( "alter-read", "an alteration of " + text + " is read as " + std::to_string( alter ) + " semitones and " + std::to_string( cents ) + " cents" );
        if( std::fabs( cents ) >= 100 ) c.fail( "cents-range", "an alteration of " + text + " gives " + std::to_string( cents ) + " cents" );
        if( ( alter > 0 && cents < 0 ) || ( alter < 0 && cents > 0 ) ) c.tag( "semitones and cents of opposite sign" );
        // and back to text
        const std::string out = score::write( s );
        const auto x = xml::parse( out );
        if( !x.ok ) { c.fail( "not-well-formed", x.error ); return; }
        std::string got = term( x.root, key ? "key/key-alter" : "pitch/alter" );
        if( got[0] == '(' ) got = "0";
        if( std::llabs( exact( got ) - exact( text ) ) > 1000000 ) c.fail( "alter-written", "an alteration of " + text + " is written again as " + got );
    }
    PBT_PROPERTY( pbt::Property{ "A13", "alterations", "every generated alteration; distinct by its text", alterations, 8000, 200000 } );
}
