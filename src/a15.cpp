// A15: extracted score data reports what the document contains.  An independent walk over the
// XML tree (libxml2) writes down, for every measure of every part, one line for each thing the
// score data has a place for; a second walk does the same for the extracted data; the two lists
// have to be the same.  The tree is the one the library writes for the document it read, so that
// what is measured is the extraction (that reading and writing keep documents is C01).
#include "common/docs.h"
#include "common/score.h"
#include "mx/api/DocumentManager.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
using namespace mx::api;
using xml::Node;

namespace
{
    typedef std::multiset<std::string> Lines;
    struct Facts { std::vector<std::string> parts; std::vector<std::vector<Lines>> measures; Lines score; };

    std::string num( long double v )
    {
        // in thousandths; the limits between them are not on decimal numbers, which are what both sides start from
        char b[64];
        const long double t = std::floor( v * 1000 + 0.4123456789L );
        snprintf( b, sizeof b, "%.3Lf", ( t == 0 ? 0 : t ) / 1000 );
        return b;
    }
    long double dec( const std::string& s ) { return strtold( s.c_str(), nullptr ); }
    std::string squash( const std::string& s )
    {
        std::string o;
        for( char ch : s )
            if( ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' ) { if( !o.empty() && o.back() != ' ' ) o += ' '; }
            else o += ch;
        while( !o.empty() && o.back() == ' ' ) o.pop_back();
        return o;
    }
    std::string at( const Node& n, const char* a, const char* otherwise = "-" )
    {
        auto p = n.attr( a );
        return p ? squash( *p ) : otherwise;
    }
    std::string txt( const Node& n, const char* child, const char* otherwise = "-" )
    {
        auto p = n.child( child );
        return p ? squash( p->text ) : otherwise;
    }
    std::string level( const Node& n ) { auto p = n.attr( "number" ); return p ? std::to_string( (long)dec( *p ) ) : "-1"; }
    std::string level( int v ) { return std::to_string( v ); }

    template <class E> struct Word { E value; const char* word; };
    template <class E, size_t N> std::string word( const Word<E> ( &table )[N], E v )
    {
        for( auto& w : table ) if( w.value == v ) return w.word;
        return "?" + std::to_string( (int)v );
    }
    const Word<DurationName> DURATIONS[] = {
        { DurationName::unspecified, "-" }, { DurationName::maxima, "maxima" }, { DurationName::longa, "long" }, { DurationName::breve, "breve" }, { DurationName::whole, "whole" }, { DurationName::half, "half" },
        { DurationName::quarter, "quarter" }, { DurationName::eighth, "eighth" }, { DurationName::dur16th, "16th" }, { DurationName::dur32nd, "32nd" }, { DurationName::dur64th, "64th" },
        { DurationName::dur128th, "128th" }, { DurationName::dur256th, "256th" }, { DurationName::dur512th, "512th" }, { DurationName::dur1024th, "1024th" } };
    const Word<Stem> STEMS[] = { { Stem::unspecified, "-" }, { Stem::none, "none" }, { Stem::up, "up" }, { Stem::down, "down" }, { Stem::both, "double" } };
    const Word<Beam> BEAMS[] = { { Beam::begin, "begin" }, { Beam::extend, "continue" }, { Beam::end, "end" }, { Beam::forwardBroken, "forward hook" }, { Beam::backwardBroken, "backward hook" } };
    const Word<Step> STEPS[] = { { Step::a, "A" }, { Step::b, "B" }, { Step::c, "C" }, { Step::d, "D" }, { Step::e, "E" }, { Step::f, "F" }, { Step::g, "G" } };
    const Word<NoteType> KINDS[] = { { NoteType::normal, "normal" }, { NoteType::grace, "grace" }, { NoteType::cue, "cue" } };
    const Word<BarlineType> BARS[] = {
        { BarlineType::unspecified, "-" }, { BarlineType::normal, "regular" }, { BarlineType::lightLight, "light-light" }, { BarlineType::lightHeavy, "light-heavy" }, { BarlineType::heavyLight, "heavy-light" },
        { BarlineType::heavyHeavy, "heavy-heavy" }, { BarlineType::dashed, "dashed" }, { BarlineType::dotted, "dotted" }, { BarlineType::heavy, "heavy" }, { BarlineType::unsupported, "unsupported" }, { BarlineType::none, "none" } };
    const Word<HorizontalAlignment> PLACES[] = { { HorizontalAlignment::unspecified, "-" }, { HorizontalAlignment::left, "left" }, { HorizontalAlignment::center, "middle" }, { HorizontalAlignment::right, "right" } };
    const Word<EndingType> ENDINGS[] = { { EndingType::none, "-" }, { EndingType::start, "start" }, { EndingType::stop, "stop" }, { EndingType::discontinue, "discontinue" } };
    const Word<ClefSymbol> CLEFS[] = { { ClefSymbol::g, "G" }, { ClefSymbol::f, "F" }, { ClefSymbol::c, "C" }, { ClefSymbol::percussion, "percussion" }, { ClefSymbol::tab, "TAB" }, { ClefSymbol::jianpu, "jianpu" }, { ClefSymbol::none, "none" } };
    const Word<WedgeType> WEDGES[] = { { WedgeType::crescendo, "crescendo" }, { WedgeType::diminuendo, "diminuendo" } };
    const Word<OttavaType> OTTAVAS[] = { { OttavaType::o8va, "up 8" }, { OttavaType::o8vb, "down 8" }, { OttavaType::o15ma, "up 15" }, { OttavaType::o15mb, "down 15" } };
    const Word<KeyMode> MODES[] = { { KeyMode::unspecified, "-" }, { KeyMode::major, "major" }, { KeyMode::minor, "minor" } };
    const Word<BracketType> GROUPS[] = { { BracketType::unspecified, "-" }, { BracketType::none, "none" }, { BracketType::brace, "brace" }, { BracketType::line, "line" }, { BracketType::bracket, "bracket" }, { BracketType::square, "square" } };
    const Word<Bool> BOOLS[] = { { Bool::unspecified, "-" }, { Bool::yes, "yes" }, { Bool::no, "no" } };

    // ---- the document's side ------------------------------------------------------------------
    struct Walk
    {
        long double divisions = 0; // of the part so far; 0: not given yet
        int staves = 1;

        static int staffOf( const Node& n )
        {
            auto s = n.child( "staff" );
            return s ? (int)dec( s->text ) : 0;
        }
        static int countStaves( const std::vector<const Node*>& measures )
        {
            int staves = 1;
            for( auto m : measures )
                for( auto& k : m->kids )
                {
                    if( k.name == "note" || k.name == "forward" || k.name == "direction" || k.name == "harmony" ) staves = std::max( staves, staffOf( k ) );
                    if( k.name == "attributes" ) if( auto s = k.child( "staves" ) ) staves = std::max( staves, (int)dec( s->text ) );
                }
            return staves;
        }
        // which of the staves something belongs to
        std::string staff( const Node& n ) const
        {
            const int s = staffOf( n );
            return std::to_string( s < 1 || s > staves ? 1 : s );
        }

        void marks( const Node& notations, const Node* modification, std::map<std::string, int>& count, Lines& out ) const
        {
            for( auto& k : notations.kids )
            {
                if( k.name == "ornaments" )
                    for( auto& o : k.kids )
                    {
                        if( o.name == "accidental-mark" ) ++count["accidental-mark"];
                        else if( o.name == "tremolo" )
                        {
                            if( at( o, "type", "single" ) != "single" ) continue;
                            const int slashes = (int)dec( o.text );
                            // the data knows up to five
                            if( slashes <= 5 ) ++count["tremolo " + std::to_string( slashes == 0 ? 3 : slashes )];
                            else out.insert( "mark ?" );
                        }
                        else ++count["ornament"];
                    }
                else if( k.name == "technical" )
                {
                    static const std::set<std::string> known = { "up-bow", "down-bow", "harmonic", "open-string", "thumb-position", "double-tongue", "triple-tongue", "stopped", "snap-pizzicato", "heel", "toe", "fingernails", "other-technical" };
                    for( auto& o : k.kids ) if( known.count( o.name ) ) ++count["technical"];
                }
                else if( k.name == "articulations" ) count["articulation"] += (int)k.kids.size();
                else if( k.name == "dynamics" ) ++count["dynamic"];
                else if( k.name == "fermata" ) ++count["fermata"];
                else if( k.name == "arpeggiate" ) ++count["arpeggiate"];
                else if( k.name == "non-arpeggiate" ) ++count["non-arpeggiate"];
                else if( k.name == "accidental-mark" ) ++count["accidental-mark"];
                else if( k.name == "slur" || k.name == "tied" )
                {
                    // a let-ring curve has no counterpart in the data
                    out.insert( "curve " + k.name + " " + at( k, "type" ) + " number=" + level( k ) );
                }
                else if( k.name == "tuplet" )
                {
                    std::string l = "tuplet " + at( k, "type" ) + " number=" + level( k );
                    if( at( k, "type" ) == "start" )
                    {
                        l += " bracket=" + at( k, "bracket" );
                        // a tuplet which does not give its numbers has those of its note
                        const auto number = [&]( const char* portion, const char* ofNote )
                        {
                            if( auto p = k.child( portion ) ) return p->child( "tuplet-number" ) ? std::to_string( (long)dec( txt( *p, "tuplet-number" ) ) ) : std::string( "-1" );
                            return modification ? std::to_string( (long)dec( txt( *modification, ofNote ) ) ) : std::string( "-1" );
                        };
                        l += " actual=" + number( "tuplet-actual", "actual-notes" ) + " normal=" + number( "tuplet-normal", "normal-notes" );
                    }
                    out.insert( l );
                }
            }
        }

        void note( const Node& n, const Node* next, Lines& out ) const
        {
            std::ostringstream s;
            const bool grace = n.child( "grace" ), cue = n.child( "cue" );
            const Node* rest = n.child( "rest" );
            const Node* unpitched = n.child( "unpitched" );
            const Node* pitch = n.child( "pitch" );
            s << "note " << ( grace ? "grace" : cue ? "cue" : "normal" ) << " staff=" << staff( n );
            if( rest ) s << ( at( *rest, "measure" ) == "yes" ? " measure-rest" : " rest" );
            if( unpitched ) s << " unpitched";
            const Node* shown = rest ? rest : unpitched;
            if( shown && shown->child( "display-step" ) ) s << " shown=" << txt( *shown, "display-step" ) << (long)dec( txt( *shown, "display-octave" ) );
            if( pitch ) s << " pitch=" << txt( *pitch, "step" ) << (long)dec( txt( *pitch, "octave" ) ) << " alter=" << num( dec( txt( *pitch, "alter", "0" ) ) );
            s << " chord=" << ( n.child( "chord" ) || ( next && next->child( "chord" ) ) );
            int dots = 0;
            bool start = false, stop = false;
            std::map<int, std::string> beams;
            bool beamsKnown = true;
            int numbered = 0, plain = 0;
            for( auto& k : n.kids )
            {
                if( k.name == "dot" ) ++dots;
                if( k.name == "tie" ) ( at( k, "type" ) == "start" ? start : stop ) = true;
                if( k.name == "beam" )
                {
                    // without numbers the order counts; two beams with one number contradict each other
                    const int b = k.attr( "number" ) ? (int)dec( *k.attr( "number" ) ) : ++plain;
                    if( k.attr( "number" ) ) ++numbered;
                    if( beams.count( b ) ) beamsKnown = false;
                    beams[b] = squash( k.text );
                }
            }
            if( numbered && plain ) beamsKnown = false;
            s << " dots=" << dots << " tie=" << start << stop;
            s << " stem=" << txt( n, "stem" );
            std::string type = txt( n, "type" );
            if( type == "-" && !grace && divisions > 0 )
            {
                // without a type, a duration which is that of a plain note
                const long double quarters = dec( txt( n, "duration", "0" ) ) / divisions;
                static const std::pair<const char*, int> plainTypes[] = { { "maxima", 5 }, { "long", 4 }, { "breve", 3 }, { "whole", 2 }, { "half", 1 }, { "quarter", 0 }, { "eighth", -1 }, { "16th", -2 }, { "32nd", -3 }, { "64th", -4 }, { "128th", -5 }, { "256th", -6 }, { "512th", -7 }, { "1024th", -8 } };
                for( auto& p : plainTypes ) if( quarters == ldexpl( 1, p.second ) ) type = p.first;
                if( type == "-" && quarters > 0 ) type = "?"; // a value the library may round to a plain one
            }
            // without divisions, durations say nothing
            if( type != "?" && ( type != "-" || divisions > 0 ) ) out.insert( "type " + type );
            else out.insert( "type ?" );
            if( auto tm = n.child( "time-modification" ) ) s << " ratio=" << (long)dec( txt( *tm, "actual-notes" ) ) << ":" << (long)dec( txt( *tm, "normal-notes" ) );
            else s << " ratio=1:1";
            if( auto a = n.child( "accidental" ) )
                s << " accidental" << ( at( *a, "parentheses" ) == "yes" ? " ()" : "" ) << ( at( *a, "cautionary" ) == "yes" ? " c" : "" ) << ( at( *a, "editorial" ) == "yes" ? " e" : "" ) << ( at( *a, "bracket" ) == "yes" ? " []" : "" );
            out.insert( s.str() );
            if( beamsKnown ) for( auto& b : beams ) out.insert( "beam " + b.second );
            else out.insert( "beam ?" );
            std::map<std::string, int> count;
            for( auto& k : n.kids ) if( k.name == "notations" ) marks( k, n.child( "time-modification" ), count, out );
            for( auto& m : count ) for( int i = 0; i < m.second; ++i ) out.insert( "mark " + m.first );
        }

        void direction( const Node& n, Lines& out ) const
        {
            const std::string where = " staff=" + staff( n );
            for( auto& dt : n.kids )
            {
                if( dt.name != "direction-type" ) continue;
                for( auto& k : dt.kids )
                {
                    const std::string type = at( k, "type" );
                    if( k.name == "words" || k.name == "rehearsal" ) out.insert( k.name + where + " " + squash( k.text ) );
                    else if( k.name == "segno" || k.name == "coda" ) out.insert( k.name + where );
                    else if( k.name == "dynamics" ) out.insert( "dynamics" + where );
                    else if( k.name == "wedge" )
                    {
                        if( type == "continue" ) out.insert( "wedge ?" );
                        else out.insert( "wedge " + type + where + " number=" + level( k ) + " spread=" + ( k.attr( "spread" ) ? num( dec( *k.attr( "spread" ) ) ) : "-" ) );
                    }
                    else if( k.name == "octave-shift" && type == "stop" ) out.insert( "ottava stop" + where + " number=" + level( k ) );
                    else if( k.name == "octave-shift" && type != "continue" ) out.insert( "ottava " + type + ( dec( at( k, "size", "8" ) ) > 8 ? " 15" : " 8" ) + where + " number=" + level( k ) );
                    else if( k.name == "bracket" && type != "continue" ) out.insert( "bracket " + type + where + " number=" + level( k ) );
                    else if( k.name == "pedal" && ( type == "start" || type == "stop" ) ) out.insert( "pedal " + type + where );
                    else if( k.name == "metronome" )
                    {
                        std::string l = "tempo" + where;
                        if( k.child( "per-minute" ) )
                        {
                            int dots = 0;
                            for( auto& d : k.kids ) dots += d.name == "beat-unit-dot";
                            const std::string per = k.child( "per-minute" )->text;
                            const bool whole = std::to_string( atoi( per.c_str() ) ) == per;
                            l += " " + txt( k, "beat-unit" ) + " dots=" + std::to_string( dots ) + " " + ( whole ? per : "text " + squash( per ) );
                        }
                        out.insert( l );
                    }
                }
            }
        }

        void harmony( const Node& n, Lines& out ) const
        {
            // a harmony is a sequence of chords, each from its root (or function) on
            struct Chord { const Node* root; const Node* kind = nullptr; const Node* bass = nullptr; int degrees = 0; };
            std::vector<Chord> chords;
            for( auto& k : n.kids )
            {
                if( k.name == "root" || k.name == "function" ) chords.push_back( { k.name == "root" ? &k : nullptr } );
                else if( chords.empty() ) continue;
                else if( k.name == "kind" ) chords.back().kind = &k;
                else if( k.name == "bass" ) chords.back().bass = &k;
                else if( k.name == "degree" )
                {
                    // the data has numbers for these
                    static const std::set<long> known = { 1, 2, 3, 4, 5, 6, 7, 9, 11, 13 };
                    chords.back().degrees += (int)known.count( (long)dec( txt( k, "degree-value", "0" ) ) );
                }
            }
            for( auto& c : chords )
            {
                if( !c.root ) continue;
                const long double alters[] = { dec( txt( *c.root, "root-alter", "0" ) ), c.bass ? dec( txt( *c.bass, "bass-alter", "0" ) ) : 0 };
                for( auto a : alters ) if( std::fabs( std::fabs( a - std::floor( a ) ) - 0.5L ) < 0.001L ) out.insert( "chord ?" ); // halfway between two numbers
                std::string l = "chord staff=" + staff( n ) + " " + txt( *c.root, "root-step" ) + num( std::round( dec( txt( *c.root, "root-alter", "0" ) ) ) );
                if( c.bass ) l += " over " + txt( *c.bass, "bass-step" ) + num( std::round( dec( txt( *c.bass, "bass-alter", "0" ) ) ) );
                l += " degrees=" + std::to_string( c.degrees );
                if( c.kind ) l += " text=" + at( *c.kind, "text", "" ) + " symbols=" + at( *c.kind, "use-symbols" );
                out.insert( l );
            }
        }

        void barline( const Node& n, Lines& out ) const
        {
            std::string style = txt( n, "bar-style" );
            if( style == "tick" || style == "short" ) style = "unsupported";
            std::string l = "barline " + at( n, "location" ) + " style=" + style;
            if( auto e = n.child( "ending" ) )
            {
                l += " ending=" + at( *e, "type" );
                const std::string numbers = at( *e, "number", "" );
                long first = 0; // the smallest of the list
                std::string d;
                for( char ch : numbers + "," )
                    if( isdigit( (unsigned char)ch ) ) d += ch;
                    else if( ch == ',' ) { const long v = atol( d.c_str() ); if( v > 0 && ( !first || v < first ) ) first = v; d.clear(); }
                l += " " + std::to_string( first );
            }
            else l += " ending=- 0";
            if( n.child( "repeat" ) ) l += " repeat";
            out.insert( l );
        }

        void attributes( const Node& n, Lines& out )
        {
            if( auto d = n.child( "divisions" ) ) divisions = dec( d->text );
            for( auto& k : n.kids )
            {
                if( k.name == "key" )
                {
                    std::string l = "key";
                    const int s = k.attr( "number" ) ? (int)dec( *k.attr( "number" ) ) : 0;
                    l += " staff=" + std::to_string( s > staves ? 0 : s );
                    if( k.child( "fifths" ) )
                    {
                        const std::string mode = txt( k, "mode" );
                        l += " fifths=" + std::to_string( (long)dec( txt( k, "fifths" ) ) ) + " cancel=" + std::to_string( (long)dec( txt( k, "cancel", "0" ) ) ) + " mode=" + ( mode == "major" || mode == "minor" ? mode : "-" );
                    }
                    else
                    {
                        for( size_t i = 0; i < k.kids.size(); ++i )
                        {
                            if( k.kids[i].name == "key-step" ) l += " " + squash( k.kids[i].text );
                            if( k.kids[i].name == "key-alter" ) l += num( dec( k.kids[i].text ) );
                            if( k.kids[i].name == "key-accidental" ) l += "!";
                        }
                    }
                    out.insert( l );
                }
                else if( k.name == "clef" )
                {
                    const std::string sign = txt( k, "sign" );
                    const int s = k.attr( "number" ) ? (int)dec( *k.attr( "number" ) ) : 1;
                    static const std::map<std::string, int> usual = { { "G", 2 }, { "F", 4 }, { "C", 3 }, { "jianpu", 1 }, { "TAB", 1 }, { "percussion", 3 }, { "none", 3 } };
                    const long line = k.child( "line" ) ? (long)dec( txt( k, "line" ) ) : usual.count( sign ) ? usual.at( sign ) : 3;
                    out.insert( "clef staff=" + std::to_string( s > staves ? 1 : s ) + " " + sign + " line=" + std::to_string( line ) + " octave=" + std::to_string( (long)dec( txt( k, "clef-octave-change", "0" ) ) ) );
                }
            }
        }

        Lines measure( const Node& m, size_t index )
        {
            Lines out;
            const std::string number = m.attr( "number" ) ? *m.attr( "number" ) : "";
            out.insert( "number " + ( number == std::to_string( index + 1 ) ? std::string() : squash( number ) ) );
            out.insert( "implicit " + at( m, "implicit" ) );
            out.insert( "width " + ( m.attr( "width" ) && dec( *m.attr( "width" ) ) >= 0 ? num( dec( *m.attr( "width" ) ) ) : "-" ) );
            std::vector<const Node*> notes;
            for( auto& k : m.kids ) if( k.name == "note" ) notes.push_back( &k );
            size_t i = 0;
            const Node* time = nullptr;
            long rests = -1;
            for( auto& k : m.kids )
            {
                if( k.name == "note" )
                {
                    ++i;
                    note( k, i < notes.size() ? notes[i] : nullptr, out );
                }
                else if( k.name == "direction" ) direction( k, out );
                else if( k.name == "harmony" ) harmony( k, out );
                else if( k.name == "barline" ) barline( k, out );
                else if( k.name == "attributes" )
                {
                    attributes( k, out );
                    for( auto& a : k.kids )
                    {
                        if( a.name == "time" && !time ) time = &a;
                        if( a.name == "measure-style" ) if( auto mr = a.child( "multiple-rest" ) ) if( !squash( mr->text ).empty() ) rests = (long)dec( mr->text );
                    }
                }
            }
            if( index == 0 ) // the score data has one transposition for a part
            {
                std::vector<const Node*> all;
                bool start = true, late = false;
                for( auto& k : m.kids )
                {
                    if( k.name == "attributes" ) for( auto& a : k.kids ) if( a.name == "transpose" ) all.push_back( &a ), late |= !start;
                    start &= k.name != "note" && k.name != "forward" && k.name != "backup";
                }
                if( all.size() > 1 || late ) // only one from the start is taken
                {
                    out.insert( "transpose-chromatic ?" );
                    out.insert( "transpose-diatonic ?" );
                }
                else if( all.size() == 1 )
                {
                    const auto whole = [&]( const char* name, long& v ) { auto k = all[0]->child( name ); const auto d = k ? dec( k->text ) : 0; v = d > -1000000 && d < 1000000 ? (long)d : 1; return d > -1000000 && d < 1000000 && (long)d == d; };
                    long chromatic = 0, diatonic = 0, octave = 0;
                    const bool a = whole( "chromatic", chromatic ), b = whole( "diatonic", diatonic ), o = whole( "octave-change", octave );
                    out.insert( a && o ? "transpose-chromatic " + std::to_string( chromatic + 12 * octave ) : std::string( "transpose-chromatic ?" ) );
                    out.insert( a && b && o && ( all[0]->child( "diatonic" ) || ( !chromatic && !octave ) ) ? "transpose-diatonic " + std::to_string( diatonic + 7 * octave ) : std::string( "transpose-diatonic ?" ) );
                }
            }
            out.insert( "multi-measure-rest " + ( rests < 0 ? std::string( "-" ) : std::to_string( rests ) ) );
            if( time )
            {
                int groups = 0;
                for( auto& k : time->kids ) groups += k.name == "beats";
                const std::string beats = time->child( "beats" ) ? time->child( "beats" )->text : "", type = time->child( "beat-type" ) ? time->child( "beat-type" )->text : "";
                const auto plain = []( const std::string& s ) { return !s.empty() && std::to_string( atoi( s.c_str() ) ) == s; };
                const std::string symbol = at( *time, "symbol" );
                if( groups == 1 && plain( beats ) && plain( type ) )
                    out.insert( "time " + beats + "/" + type + " symbol=" + ( symbol == "common" || symbol == "cut" ? symbol : "-" ) + " shown=" + at( *time, "print-object" ) );
                else out.insert( "time ?" );
            }
            return out;
        }
    };

    std::string display( const Node& n )
    {
        std::string o;
        for( auto& k : n.kids )
            if( k.name == "display-text" ) o += k.text;
            else if( k.name == "accidental-text" ) o += squash( k.text ) == "flat" ? "b" : squash( k.text ) == "sharp" ? "#" : "";
        return squash( o );
    }

    std::string whole( const Node& n, const char* child ) { return n.child( child ) ? std::to_string( (long)dec( txt( n, child ) ) ) : std::string( "-1" ); }
    std::string decimal( const Node& n, const char* child ) { return n.child( child ) ? num( dec( txt( n, child ) ) ) : std::string( "-" ); }

    std::string scorePart( const Node& p )
    {
        std::string l = "score-part " + at( p, "id" ) + " name=" + txt( p, "part-name", "" ) + " abbreviation=" + txt( p, "part-abbreviation", "" );
        static const Node nothing;
        const Node* i = p.child( "score-instrument" );
        const Node& in = i ? *i : nothing;
        l += " instrument=" + at( in, "id", "" ) + " " + txt( in, "instrument-name", "" ) + " (" + txt( in, "instrument-abbreviation", "" ) + ")" + ( in.child( "solo" ) ? " solo" : in.child( "ensemble" ) ? " ensemble" : "" );
        l += in.child( "instrument-sound" ) ? " sound" : "";
        const Node* v = in.child( "virtual-instrument" );
        l += " virtual=" + ( v ? txt( *v, "virtual-library", "" ) + "/" + txt( *v, "virtual-name", "" ) : std::string( "/" ) );
        // of the groups of a device and an instrument, the first
        const Node* device = nullptr;
        const Node* midi = nullptr;
        for( auto& k : p.kids )
            if( k.name == "midi-device" ) { if( device ) break; device = &k; }
            else if( k.name == "midi-instrument" ) { midi = &k; break; }
        const Node& m = midi ? *midi : nothing;
        l += " device=" + ( device ? squash( device->text ) : std::string() ) + " midi=" + txt( m, "midi-name", "" ) + " " + whole( m, "midi-channel" ) + " " + whole( m, "midi-bank" ) + " " + whole( m, "midi-program" ) + " " + whole( m, "midi-unpitched" ) + " " + decimal( m, "volume" ) + " " + decimal( m, "pan" ) + " " + decimal( m, "elevation" );
        return l;
    }

    // one who is named for a role: the only one of that type, or for some roles the only one without a type
    void role( const std::vector<const Node*>& of, const std::string& name, bool untyped, Lines& out )
    {
        size_t typed = 0, plain = 0;
        const Node* one = nullptr;
        for( auto n : of )
            if( n->attr( "type" ) ? *n->attr( "type" ) == name : untyped ) { ++( n->attr( "type" ) ? typed : plain ); one = n; }
        if( typed + plain > 1 ) out.insert( name + " ?" );
        else out.insert( name + " " + ( one ? squash( one->text ) : "" ) );
    }

    void header( const Node& root, Lines& out )
    {
        std::vector<const Node*> creators, rights;
        const Node* id = root.child( "identification" );
        if( id )
            for( auto& k : id->kids )
            {
                if( k.name == "creator" ) creators.push_back( &k );
                else if( k.name == "rights" ) rights.push_back( &k );
                else if( k.name == "miscellaneous" ) for( auto& m : k.kids ) out.insert( "miscellaneous " + at( m, "name", "" ) + "=" + squash( m.text ) );
                else if( k.name == "encoding" )
                {
                    std::set<std::string> had;
                    for( auto& e : k.kids )
                        if( e.name == "software" ) out.insert( "software " + squash( e.text ) );
                        else if( e.name == "supports" ) out.insert( "supports " + at( e, "element" ) + " " + at( e, "attribute", "" ) + " " + at( e, "value", "" ) + " " + at( e, "type" ) );
                        else if( had.insert( e.name ).second )
                        {
                            int y, m, d;
                            const std::string text = squash( e.text );
                            if( e.name != "encoding-date" ) { if( !text.empty() ) out.insert( e.name + " " + text ); }
                            else if( sscanf( text.c_str(), "%d-%d-%d", &y, &m, &d ) == 3 && y > 0 && y < 10000 ) out.insert( "encoding-date " + std::to_string( y ) + " " + std::to_string( m ) + " " + std::to_string( d ) );
                            else out.insert( "encoding-date ?" );
                        }
                }
            }
        role( creators, "composer", true, out );
        role( creators, "lyricist", false, out );
        role( creators, "arranger", false, out );
        role( creators, "publisher", false, out );
        role( rights, "copyright", true, out );
        for( auto& c : root.kids )
            if( c.name == "credit" )
                if( auto w = c.child( "credit-words" ) )
                    out.insert( "page-text " + ( c.attr( "page" ) ? std::to_string( (long)dec( *c.attr( "page" ) ) ) : std::string( "-" ) ) + " " + txt( c, "credit-type", "" ) + ": " + squash( w->text ) );
        // part groups, where it is clear which stop belongs to which start
        if( auto list = root.child( "part-list" ) )
        {
            Lines groups;
            std::map<long, std::pair<const Node*, int>> open;
            int parts = 0;
            bool clear = true;
            for( auto& k : list->kids )
            {
                if( k.name == "score-part" ) ++parts;
                if( k.name != "part-group" ) continue;
                const long n = k.attr( "number" ) ? (long)dec( *k.attr( "number" ) ) : -1;
                if( at( k, "type" ) == "start" )
                {
                    if( open.count( n ) ) clear = false;
                    open[n] = { &k, parts };
                }
                else
                {
                    if( !open.count( n ) ) { clear = false; continue; }
                    const auto g = open[n];
                    open.erase( n );
                    groups.insert( "part-group " + std::to_string( n ) + " " + txt( *g.first, "group-name", "" ) + " (" + txt( *g.first, "group-abbreviation", "" ) + ") " + txt( *g.first, "group-symbol" ) + " " + std::to_string( g.second ) + "-" + std::to_string( std::max( parts - 1, 0 ) ) );
                }
            }
            if( clear ) out.insert( groups.begin(), groups.end() );
            else out.insert( "part-group ?" );
        }
    }

    bool fromTree( const Node& root, Facts& f )
    {
        std::vector<std::string> order;
        std::map<std::string, std::vector<const Node*>> measures;
        std::vector<Node> made; // measures of a timewise document, as those of parts
        if( root.name == "score-partwise" )
        {
            for( auto& p : root.kids )
            {
                if( p.name != "part" ) continue;
                const std::string id = p.attr( "id" ) ? *p.attr( "id" ) : "";
                if( measures.count( id ) ) return false;
                order.push_back( id );
                for( auto& m : p.kids ) if( m.name == "measure" ) measures[id].push_back( &m );
            }
        }
        else
        {
            size_t n = 0;
            for( auto& m : root.kids ) for( auto& p : m.kids ) n += m.name == "measure" && p.name == "part";
            made.reserve( n );
            size_t bars = 0;
            for( auto& m : root.kids )
            {
                if( m.name != "measure" ) continue;
                for( auto& p : m.kids )
                {
                    if( p.name != "part" ) continue;
                    const std::string id = p.attr( "id" ) ? *p.attr( "id" ) : "";
                    if( bars == 0 ) { if( measures.count( id ) ) return false; order.push_back( id ); }
                    else if( !measures.count( id ) ) return false;
                    made.push_back( p );
                    made.back().name = "measure";
                    made.back().attrs = m.attrs;
                    measures[id].push_back( &made.back() );
                    if( measures[id].size() != bars + 1 ) return false;
                }
                ++bars;
            }
        }
        // the part list says which parts there are, and their order
        std::vector<std::string> listed;
        if( auto list = root.child( "part-list" ) )
            for( auto& p : list->kids )
                if( p.name == "score-part" )
                {
                    const std::string id = p.attr( "id" ) ? *p.attr( "id" ) : "";
                    if( std::count( listed.begin(), listed.end(), id ) ) return false;
                    if( !measures.count( id ) ) continue;
                    listed.push_back( id );
                    f.score.insert( scorePart( p ) );
                    for( auto& k : p.kids ) if( k.name == "part-name-display" || k.name == "part-abbreviation-display" ) if( !display( k ).empty() ) f.score.insert( k.name + " " + id + " " + display( k ) );
                }
        for( auto& id : listed )
        {
            Walk w;
            w.staves = Walk::countStaves( measures[id] );
            f.parts.push_back( id );
            f.measures.emplace_back();
            for( size_t i = 0; i < measures[id].size(); ++i ) f.measures.back().push_back( w.measure( *measures[id][i], i ) );
        }
        header( root, f.score );
        const auto line = [&]( const char* what, const Node* n ) { f.score.insert( std::string( what ) + " " + ( n ? squash( n->text ) : "" ) ); };
        const Node* work = root.child( "work" );
        line( "work-title", work ? work->child( "work-title" ) : nullptr );
        line( "work-number", work ? work->child( "work-number" ) : nullptr );
        line( "movement-title", root.child( "movement-title" ) );
        line( "movement-number", root.child( "movement-number" ) );
        return true;
    }

    // ---- the data's side ----------------------------------------------------------------------
    void fromNote( const NoteData& n, size_t staff, Lines& out )
    {
        std::ostringstream s;
        s << "note " << word( KINDS, n.noteType ) << " staff=" << staff + 1;
        if( n.isRest ) s << ( n.isMeasureRest ? " measure-rest" : " rest" );
        if( n.isUnpitched ) s << " unpitched";
        if( ( n.isRest || n.isUnpitched ) && n.isDisplayStepOctaveSpecified ) s << " shown=" << word( STEPS, n.pitchData.step ) << n.pitchData.octave;
        if( !n.isRest && !n.isUnpitched ) s << " pitch=" << word( STEPS, n.pitchData.step ) << n.pitchData.octave << " alter=" << num( n.pitchData.alter + n.pitchData.cents / 100.0L );
        s << " chord=" << n.isChord << " dots=" << n.durationData.durationDots << " tie=" << n.isTieStart << n.isTieStop << " stem=" << word( STEMS, n.stem );
        out.insert( "type " + word( DURATIONS, n.durationData.durationName ) );
        s << " ratio=" << n.durationData.timeModificationActualNotes << ":" << n.durationData.timeModificationNormalNotes;
        const auto& p = n.pitchData;
        if( p.accidental != Accidental::none ) s << " accidental" << ( p.isAccidentalParenthetical ? " ()" : "" ) << ( p.isAccidentalCautionary ? " c" : "" ) << ( p.isAccidentalEditorial ? " e" : "" ) << ( p.isAccidentalBracketed ? " []" : "" );
        out.insert( s.str() );
        for( auto b : n.beams ) out.insert( "beam " + word( BEAMS, b ) );
        const auto& a = n.noteAttachmentData;
        for( auto& m : a.marks )
        {
            const auto t = m.markType;
            const auto in = [&]( MarkType lo, MarkType hi ) { return t >= lo && t <= hi; };
            std::string k = "?" + std::to_string( (int)t );
            if( in( MarkType::tremoloSingleOne, MarkType::tremoloSingleFive ) ) k = "tremolo " + std::to_string( (int)t - (int)MarkType::tremoloSingleOne + 1 );
            else if( in( MarkType::trillMark, MarkType::unknownOrnament ) ) k = "ornament";
            else if( in( MarkType::accent, MarkType::otherArticulation ) || t == MarkType::customAccentTenuto ) k = "articulation";
            else if( in( MarkType::p, MarkType::unknownDynamics ) ) k = "dynamic";
            else if( in( MarkType::accidentalMarkSharp, MarkType::accidentalUnknown ) ) k = "accidental-mark";
            else if( in( MarkType::upBow, MarkType::unknownTechnical ) ) k = "technical";
            else if( in( MarkType::fermata, MarkType::unknownFermata ) ) k = "fermata";
            else if( in( MarkType::arpeggiate, MarkType::arpeggiateUp ) ) k = "arpeggiate";
            else if( t == MarkType::nonArpeggiate ) k = "non-arpeggiate";
            out.insert( "mark " + k );
        }
        const auto curve = [&]( CurveType t, const char* what, int number ) { out.insert( std::string( "curve " ) + ( t == CurveType::slur ? "slur " : "tied " ) + what + " number=" + level( number ) ); };
        for( auto& c : a.curveStarts ) curve( c.curveType, "start", c.numberLevel );
        for( auto& c : a.curveContinuations ) curve( c.curveType, "continue", c.numberLevel );
        for( auto& c : a.curveStops ) curve( c.curveType, "stop", c.numberLevel );
        for( auto& x : a.tupletStarts ) out.insert( "tuplet start number=" + level( x.numberLevel ) + " bracket=" + word( BOOLS, x.bracket ) + " actual=" + std::to_string( x.actualNumber ) + " normal=" + std::to_string( x.normalNumber ) );
        for( auto& x : a.tupletStops ) out.insert( "tuplet stop number=" + level( x.numberLevel ) );
    }
    void fromDirection( const DirectionData& d, size_t staff, Lines& out )
    {
        const std::string where = " staff=" + std::to_string( staff + 1 );
        for( auto& x : d.words ) out.insert( "words" + where + " " + squash( x.text ) );
        for( auto& x : d.rehearsals ) out.insert( "rehearsal" + where + " " + squash( x.text ) );
        for( size_t i = 0; i < d.segnos.size(); ++i ) out.insert( "segno" + where );
        for( size_t i = 0; i < d.codas.size(); ++i ) out.insert( "coda" + where );
        for( auto& m : d.marks )
            if( m.markType == MarkType::pedal ) out.insert( "pedal start" + where );
            else if( m.markType == MarkType::damp ) out.insert( "pedal stop" + where );
            else out.insert( "dynamics" + where );
        const auto spread = []( bool given, long double v ) { return " spread=" + ( given ? num( v ) : std::string( "-" ) ); };
        for( auto& x : d.wedgeStarts ) out.insert( "wedge " + word( WEDGES, x.wedgeType ) + where + " number=" + level( x.numberLevel ) + spread( x.isSpreadSpecified, x.spread ) );
        for( auto& x : d.wedgeStops ) out.insert( "wedge stop" + where + " number=" + level( x.numberLevel ) + spread( x.isSpreadSpecified, x.spread ) );
        for( auto& x : d.ottavaStarts ) out.insert( "ottava " + word( OTTAVAS, x.ottavaType ) + where + " number=" + level( x.spannerStart.numberLevel ) );
        for( auto& x : d.ottavaStops ) out.insert( "ottava stop" + where + " number=" + level( x.numberLevel ) );
        for( auto& x : d.bracketStarts ) out.insert( "bracket start" + where + " number=" + level( x.numberLevel ) );
        for( auto& x : d.bracketStops ) out.insert( "bracket stop" + where + " number=" + level( x.numberLevel ) );
        for( auto& x : d.tempos )
        {
            std::string l = "tempo" + where;
            if( x.tempoType == TempoType::beatsPerMinute || x.tempoType == TempoType::tempoText )
                l += " " + word( DURATIONS, x.beatsPerMinute.durationName ) + " dots=" + std::to_string( x.beatsPerMinute.dots ) + " " + ( x.tempoType == TempoType::beatsPerMinute ? std::to_string( x.beatsPerMinute.beatsPerMinute ) : "text " + squash( x.tempoText.tempoText ) );
            out.insert( l );
        }
        for( auto& x : d.chords )
        {
            std::string l = "chord" + where + " " + word( STEPS, x.root ) + num( x.rootAlter );
            if( x.bass != Step::unspecified ) l += " over " + word( STEPS, x.bass ) + num( x.bassAlter );
            l += " degrees=" + std::to_string( x.extensions.size() ) + " text=" + squash( x.text ) + " symbols=" + word( BOOLS, x.useSymbols );
            out.insert( l );
        }
    }
    Facts fromData( const ScoreData& s )
    {
        Facts f;
        for( auto& p : s.parts )
        {
            f.parts.push_back( p.uniqueId );
            f.measures.emplace_back();
            for( auto& m : p.measures )
            {
                Lines out;
                out.insert( "number " + squash( m.number ) );
                out.insert( "implicit " + word( BOOLS, m.implicit ) );
                out.insert( "width " + ( m.width < 0 ? std::string( "-" ) : num( m.width ) ) );
                out.insert( "multi-measure-rest " + ( m.multiMeasureRest <= 0 ? std::string( "-" ) : std::to_string( m.multiMeasureRest ) ) );
                if( !m.timeSignature.isImplicit )
                {
                    const auto& t = m.timeSignature;
                    out.insert( "time " + std::to_string( t.beats ) + "/" + std::to_string( t.beatType ) + " symbol=" + ( t.symbol == TimeSignatureSymbol::common ? "common" : t.symbol == TimeSignatureSymbol::cut ? "cut" : "-" ) + " shown=" + word( BOOLS, t.display ) );
                }
                for( auto& k : m.keys )
                {
                    std::string l = "key staff=" + std::to_string( k.staffIndex + 1 );
                    if( k.nonTraditional.empty() ) l += " fifths=" + std::to_string( k.fifths ) + " cancel=" + std::to_string( k.cancel ) + " mode=" + word( MODES, k.mode );
                    for( auto& c : k.nonTraditional ) l += " " + word( STEPS, c.step ) + num( c.alter + c.cents / 100.0L ) + ( c.accidental == Accidental::none ? "" : "!" );
                    out.insert( l );
                }
                for( auto& b : m.barlines )
                    out.insert( "barline " + word( PLACES, b.location ) + " style=" + word( BARS, b.barlineType ) + " ending=" + word( ENDINGS, b.endingType ) + " " + std::to_string( b.endingNumber ) + ( b.repeat ? " repeat" : "" ) );
                for( size_t i = 0; i < m.staves.size(); ++i )
                {
                    const auto& st = m.staves[i];
                    for( auto& c : st.clefs ) out.insert( "clef staff=" + std::to_string( i + 1 ) + " " + word( CLEFS, c.symbol ) + " line=" + std::to_string( c.line ) + " octave=" + std::to_string( c.octaveChange ) );
                    for( auto& d : st.directions ) fromDirection( d, i, out );
                    for( auto& v : st.voices ) for( auto& n : v.second.notes ) fromNote( n, i, out );
                }
                if( p.transposition && f.measures.back().empty() )
                {
                    out.insert( "transpose-chromatic " + std::to_string( p.transposition->chromatic ) );
                    out.insert( "transpose-diatonic " + std::to_string( p.transposition->diatonic ) );
                }
                f.measures.back().push_back( out );
            }
            const auto& in = p.instrumentData;
            const auto& m = in.midiData;
            const auto part = [&]( bool given, long double v ) { return given ? num( v ) : std::string( "-" ); };
            f.score.insert( "score-part " + p.uniqueId + " name=" + squash( p.name ) + " abbreviation=" + squash( p.abbreviation )
                + " instrument=" + squash( in.uniqueId ) + " " + squash( in.name ) + " (" + squash( in.abbreviation ) + ")" + ( in.soloOrEnsemble == SoloOrEnsemble::solo ? " solo" : in.soloOrEnsemble == SoloOrEnsemble::ensemble ? " ensemble" : "" ) + ( in.soundID != SoundID::unspecified ? " sound" : "" )
                + " virtual=" + squash( m.virtualLibrary ) + "/" + squash( m.virtualName ) + " device=" + squash( m.device ) + " midi=" + squash( m.name )
                + " " + std::to_string( m.channel ) + " " + std::to_string( m.bank ) + " " + std::to_string( m.program ) + " " + std::to_string( m.unpitched ) + " " + part( m.isVolumeSpecified, m.volume ) + " " + part( m.isPanSpecified, m.pan ) + " " + part( m.isElevationSpecified, m.elevation ) );
            if( !squash( p.displayName ).empty() ) f.score.insert( "part-name-display " + p.uniqueId + " " + squash( p.displayName ) );
            if( !squash( p.displayAbbreviation ).empty() ) f.score.insert( "part-abbreviation-display " + p.uniqueId + " " + squash( p.displayAbbreviation ) );
        }
        const auto& en = s.encoding;
        for( auto& x : en.miscelaneousFields ) f.score.insert( "miscellaneous " + squash( x.key ) + "=" + squash( x.value ) );
        for( auto& x : en.software ) f.score.insert( "software " + squash( x ) );
        for( auto& x : en.supportedItems ) f.score.insert( "supports " + squash( x.elementName ) + " " + squash( x.attributeName ) + " " + squash( x.specificValue ) + ( x.isSupported ? " yes" : " no" ) );
        if( !squash( en.encoder ).empty() ) f.score.insert( "encoder " + squash( en.encoder ) );
        if( !squash( en.encodingDescription ).empty() ) f.score.insert( "encoding-description " + squash( en.encodingDescription ) );
        if( en.encodingDate.year > 0 ) f.score.insert( "encoding-date " + std::to_string( en.encodingDate.year ) + " " + std::to_string( en.encodingDate.month ) + " " + std::to_string( en.encodingDate.day ) );
        f.score.insert( "composer " + squash( s.composer ) );
        f.score.insert( "lyricist " + squash( s.lyricist ) );
        f.score.insert( "arranger " + squash( s.arranger ) );
        f.score.insert( "publisher " + squash( s.publisher ) );
        f.score.insert( "copyright " + squash( s.copyright ) );
        for( auto& x : s.pageTextItems ) f.score.insert( "page-text " + ( x.pageNumber > 0 ? std::to_string( x.pageNumber ) : std::string( "-" ) ) + " " + squash( x.description ) + ": " + squash( x.text ) );
        for( auto& x : s.partGroups ) f.score.insert( "part-group " + std::to_string( x.number ) + " " + squash( x.name ) + " (" + squash( x.abbreviation ) + ") " + word( GROUPS, x.bracketType ) + " " + std::to_string( x.firstPartIndex ) + "-" + std::to_string( x.lastPartIndex ) );
        f.score.insert( "work-title " + squash( s.workTitle ) );
        f.score.insert( "work-number " + squash( s.workNumber ) );
        f.score.insert( "movement-title " + squash( s.movementTitle ) );
        f.score.insert( "movement-number " + squash( s.movementNumber ) );
        return f;
    }

    std::string kindOf( const std::string& line ) { return line.substr( 0, line.find( ' ' ) ); }
    // the lines of one side which the other does not have
    void compare( const Lines& document, const Lines& data, const std::string& where, pbt::Ctx& c )
    {
        std::set<std::string> unclear; // kinds about which the document says nothing definite
        for( auto& l : document ) if( l.size() > 2 && l.substr( l.size() - 2 ) == " ?" ) unclear.insert( kindOf( l ) );
        std::vector<std::string> a, b;
        std::set_difference( document.begin(), document.end(), data.begin(), data.end(), std::back_inserter( a ) );
        std::set_difference( data.begin(), data.end(), document.begin(), document.end(), std::back_inserter( b ) );
        std::map<std::string, std::pair<std::string, std::string>> by;
        for( auto& l : a ) if( !unclear.count( kindOf( l ) ) ) by[kindOf( l )].first += "    document: " + l + "\n";
        for( auto& l : b ) if( !unclear.count( kindOf( l ) ) ) by[kindOf( l )].second += "    data:     " + l + "\n";
        for( auto& k : by )
            c.fail( ( k.second.second.empty() ? "missing:" : k.second.first.empty() ? "extra:" : "different:" ) + k.first, where + ":\n" + k.second.first + k.second.second );
    }

    void judge( const Facts& a, const Facts& b, const std::string& written, pbt::Ctx& c )
    {
        size_t lines = 0;
        std::set<std::string> kinds;
        for( auto& q : a.measures ) for( auto& m : q ) for( auto& l : m ) { ++lines; kinds.insert( kindOf( l ) ); }
        for( auto& k : kinds ) c.tag( k );
        if( lines > 6 ) c.nontrivial( written );
        compare( a.score, b.score, "score", c );
        if( a.parts != b.parts )
        {
            c.fail( "parts", "the document has " + std::to_string( a.parts.size() ) + " parts and the data " + std::to_string( b.parts.size() ) + ", or their ids differ\n" );
            return;
        }
        for( size_t i = 0; i < a.parts.size(); ++i )
        {
            if( a.measures[i].size() != b.measures[i].size() )
            {
                c.fail( "measures", "part " + a.parts[i] + " has " + std::to_string( a.measures[i].size() ) + " measures, in the data " + std::to_string( b.measures[i].size() ) + "\n" );
                continue;
            }
            for( size_t m = 0; m < a.measures[i].size(); ++m ) compare( a.measures[i][m], b.measures[i][m], "part " + a.parts[i] + ", measure " + std::to_string( m + 1 ), c );
        }
    }

    // what extraction refuses (numbers of part groups and staves which mean nothing, metronomes made of
    // notes) would hide the rest of the document
    void playable( Node& n, pbt::Tape& t, int staves )
    {
        if( t.chance( 1, 30 ) ) return;
        if( n.name == "attributes" )
            for( auto& k : n.kids ) if( k.name == "staves" ) staves = std::max( staves, std::atoi( k.text.c_str() ) );
        for( auto& a : n.attrs )
            if( a.first == "number" )
            {
                if( n.name == "part-group" ) a.second = t.pick<const char*>( { "1", "2", "3" } );
                if( ( n.name == "clef" || n.name == "key" ) && std::atoi( a.second.c_str() ) > staves ) a.second = "1";
            }
        for( size_t i = 0; i < n.kids.size(); )
        {
            if( n.kids[i].name == "direction-type" && !n.kids[i].kids.empty() && n.kids[i].kids[0].name == "metronome" )
                for( auto& k : n.kids[i].kids[0].kids )
                    if( k.name == "metronome-note" )
                    {
                        // a direction-type needs a child
                        Node w;
                        w.name = "words";
                        w.text = "tempo";
                        n.kids[i].kids.assign( 1, w );
                        break;
                    }
            playable( n.kids[i], t, staves );
            ++i;
        }
    }

    // a document populated densely where the music is
    Node music( pbt::Tape& t )
    {
        static const char* const names[] = { "note", "measure", "part", "notations", "direction", "harmony", "attributes", "ornaments", "technical", "articulations", "direction-type", "barline", "key", "clef", "time", "tuplet", "metronome", "pitch", "rest", "unpitched", "time-modification", "degree", "beam", "score-part", "work", "identification", "encoding", "credit", "part-group", "part-list", "midi-instrument" };
        static std::map<std::string, std::vector<const xml::CType*>> types;
        if( types.empty() ) for( auto& e : xml::grammar().elements ) types[e.first].push_back( e.second );
        xml::GenOptions o;
        o.targetName = names[t.below( sizeof names / sizeof *names )];
        const auto& of = types[o.targetName];
        if( of.empty() ) throw pbt::Discard{};
        o.target = of[t.below( (uint32_t)of.size() )];
        o.density = t.pick<double>( { 0.1, 0.3, 0.5 } );
        o.targetDensity = t.pick<double>( { 0.7, 0.4, 0.95 } );
        o.maxRepeat = t.pick<int>( { 3, 2, 6 } );
        o.maxNodes = 500;
        return xml::genDocument( t, o );
    }

    // one part for each part of the list, in some order
    void listed( Node& n, pbt::Tape& t )
    {
        std::vector<std::string> ids;
        for( auto& k : n.kids )
            if( k.name == "part-list" )
                for( auto& p : k.kids ) if( p.name == "score-part" ) if( auto a = p.attr( "id" ) ) ids.push_back( *a );
        const bool reverse = t.chance( 1, 4 );
        if( reverse ) std::reverse( ids.begin(), ids.end() );
        auto name = [&]( Node& in )
        {
            size_t at = 0;
            for( size_t i = 0; i < in.kids.size(); )
            {
                if( in.kids[i].name != "part" ) { ++i; continue; }
                if( at >= ids.size() ) { in.kids.erase( in.kids.begin() + (long)i ); continue; }
                for( auto& a : in.kids[i].attrs ) if( a.first == "id" ) a.second = ids[at];
                ++at;
                ++i;
            }
        };
        if( n.name == "score-partwise" ) name( n );
        else for( auto& m : n.kids ) if( m.name == "measure" ) name( m );
    }

    Node pieces( pbt::Tape& t )
    {
        Node n = music( t );
        const size_t more = n.name == "score-partwise" ? t.pick<size_t>( { 2, 1, 0, 4 } ) : 0;
        for( size_t i = 0; i < more; ++i )
        {
            Node other = music( t );
            if( other.name != "score-partwise" ) continue;
            std::vector<Node*> here, there;
            for( auto& k : n.kids ) if( k.name == "part" ) here.push_back( &k );
            for( auto& k : other.kids ) if( k.name == "part" ) there.push_back( &k );
            for( size_t p = 0; p < there.size() && p < here.size(); ++p )
                for( auto& m : there[p]->kids ) here[p]->kids.push_back( m );
        }
        docs::accept( t, n );
        if( !t.chance( 1, 10 ) )
        {
            playable( n, t, 1 );
            listed( n, t );
        }
        return n;
    }

    void a15( pbt::Tape& t, pbt::Ctx& c )
    {
        Node n;
        const int way = (int)t.weighted( { 14, 4, 2 } );
        if( way == 0 )
        {
            c.tag( "music" );
            n = pieces( t );
        }
        else if( way == 1 ) n = docs::fromSchema( t, c );
        else
        {
            auto p = xml::parse( docs::sample( t, c, 60000 ) );
            if( !p.ok ) throw pbt::Discard{};
            n = p.root;
        }
        const std::string text = xml::serialize( n );
        c.input( text );
        auto& dm = DocumentManager::getInstance();
        ScoreData data;
        std::string written;
        int id = 0;
        try
        {
            std::istringstream is( text );
            id = dm.createFromStream( is );
        }
        catch( const std::exception& ) { c.tag( "rejected" ); throw pbt::Discard{}; }
        try
        {
            std::ostringstream os;
            dm.writeToStream( id, os );
            written = os.str();
            data = dm.getData( id );
            dm.destroyDocument( id );
        }
        catch( const std::exception& ) { dm.destroyDocument( id ); c.tag( "not extracted" ); throw pbt::Discard{}; }
        auto p = xml::parse( written );
        if( !p.ok ) throw pbt::Discard{}; // R01
        Facts a, b = fromData( data );
        if( !fromTree( p.root, a ) ) { c.tag( "ambiguous parts" ); throw pbt::Discard{}; }
        judge( a, b, written, c );
    }

    // the opposite direction: what is written for score data says what the data says
    void a16( pbt::Tape& t, pbt::Ctx& c )
    {
        score::Opts o;
        o.notes = t.pick<int>( { 40, 70, 10 } );
        o.attachments = t.pick<int>( { 15, 60, 0 } );
        o.directions = t.pick<int>( { 15, 60, 0 } );
        o.measures = t.pick<int>( { 15, 60, 0 } );
        o.header = t.pick<int>( { 10, 60, 0 } );
        ScoreData s = score::generate( t, o );
        const bool timewise = t.chance( 1, 4 );
        s.musicXmlType = timewise ? "timewise" : "partwise";
        if( timewise ) // a timewise measure has one number, width and implicit flag for all parts
            for( auto& p : s.parts )
                for( size_t m = 0; m < p.measures.size(); ++m )
                {
                    auto& first = s.parts[0].measures[m];
                    p.measures[m].number = first.number, p.measures[m].width = first.width, p.measures[m].implicit = first.implicit;
                }
        c.tag( timewise ? "timewise" : "partwise" );
        c.input( refl::showScore( s ) );
        std::string written;
        try
        {
            written = score::write( s );
        }
        catch( const std::exception& ) { throw pbt::Discard{}; } // A01
        c.input( refl::showScore( s ) + "\n" + written );
        auto p = xml::parse( written );
        if( !p.ok ) throw pbt::Discard{}; // A10
        Facts a, b = fromData( s );
        if( !fromTree( p.root, a ) ) { c.fail( "part-list", "the parts of the written document do not correspond to its part list\n" ); return; }
        judge( a, b, written, c );
    }

    PBT_PROPERTY( pbt::Property{ "A15", "facts", "the document has more than the six lines every measure has", a15, 9000, 400000, 20 } );
    PBT_PROPERTY( pbt::Property{ "A16", "facts", "the document has more than the six lines every measure has", a16, 3000, 100000, 20 } );
}
