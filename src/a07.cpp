// A07: extracted times, durations and placement follow the MusicXML time model.  Documents are
// generated as little measure programs; an interpreter working in exact fractions of a quarter
// computes where everything is, and the extracted score data has to agree.
#include "common/pbt.h"
#include "common/xml.h"
#include "mx/api/DocumentManager.h"
#include "mx/api/ScoreData.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include <sstream>
using namespace mx::api;
using xml::Node;

namespace
{
    struct Fr // a fraction of a quarter note
    {
        long long n = 0, d = 1;
        Fr() {}
        Fr( long long a, long long b ) : n( a ), d( b ) { const long long g = std::gcd( n < 0 ? -n : n, d ); if( g > 1 ) { n /= g; d /= g; } }
        Fr operator+( const Fr& o ) const { const long long g = std::gcd( d, o.d ); return Fr( n * ( o.d / g ) + o.n * ( d / g ), d / g * o.d ); }
        Fr operator-( const Fr& o ) const { return *this + Fr( -o.n, o.d ); }
        bool operator==( const Fr& o ) const { return n == o.n && d == o.d; }
        bool operator<( const Fr& o ) const { return (__int128)n * o.d < (__int128)o.n * d; }
        std::string show() const { return std::to_string( n ) + ( d == 1 ? "" : "/" + std::to_string( d ) ); }
    };

    struct Thing // what the interpreter says about one element
    {
        std::string what;   // note, direction, harmony, clef, key
        int id = 0, part = 0, measure = 0, staff = 0, voice = -1;
        bool staffGiven = false;
        Fr at, lasts;
        int slack = 0;      // how many roundings may have gone into the position
        bool lastsExact = true;
        bool chord = false;
        NoteType type = NoteType::normal;
        DurationName name = DurationName::unspecified;
        int dots = 0;
        int order = 0;
        bool voiceKnown = false;
    };
    struct Bar { int part = 0, measure = 0; Fr at; int slack = 0; HorizontalAlignment where = HorizontalAlignment::unspecified; };
    struct Time { int beats, type; bool implicit; };

    const std::vector<std::pair<const char*, std::pair<DurationName, Fr>>>& types()
    {
        static const std::vector<std::pair<const char*, std::pair<DurationName, Fr>>> t = {
            { "quarter", { DurationName::quarter, Fr( 1, 1 ) } }, { "half", { DurationName::half, Fr( 2, 1 ) } },
            { "whole", { DurationName::whole, Fr( 4, 1 ) } }, { "breve", { DurationName::breve, Fr( 8, 1 ) } },
            { "long", { DurationName::longa, Fr( 16, 1 ) } }, { "maxima", { DurationName::maxima, Fr( 32, 1 ) } },
            { "eighth", { DurationName::eighth, Fr( 1, 2 ) } }, { "16th", { DurationName::dur16th, Fr( 1, 4 ) } },
            { "32nd", { DurationName::dur32nd, Fr( 1, 8 ) } }, { "64th", { DurationName::dur64th, Fr( 1, 16 ) } },
            { "128th", { DurationName::dur128th, Fr( 1, 32 ) } }, { "256th", { DurationName::dur256th, Fr( 1, 64 ) } },
            { "512th", { DurationName::dur512th, Fr( 1, 128 ) } }, { "1024th", { DurationName::dur1024th, Fr( 1, 256 ) } } };
        return t;
    }
    Node el( const std::string& name, const std::string& text = "" ) { Node n; n.name = name; n.text = text; return n; }

    struct Program
    {
        pbt::Tape& t;
        bool decimals = false, messy = false;
        std::vector<Thing> things;
        std::vector<Bar> bars;
        std::vector<std::vector<std::vector<Node>>> content; // part, measure, elements
        std::vector<std::vector<Time>> times;
        std::vector<int> staves;
        std::vector<long long> allDivisions;
        int next = 1;
        int features = 0;
        int partCount, measureCount;

        explicit Program( pbt::Tape& tape ) : t( tape ) {}

        void run()
        {
            partCount = 1 + (int)t.weighted( { 6, 2, 1 } );
            measureCount = t.range( 1, 4 );
            decimals = t.chance( 1, 8 );
            messy = t.chance( 1, 5 );
            for( int p = 0; p < partCount; ++p ) part( p );
        }
        long long div = 1;
        int lcmNow = 1;
        // a divisions value which keeps the least common multiple small enough
        long long divisions()
        {
            static const std::vector<long long> all = { 1, 2, 4, 3, 6, 8, 12, 16, 24, 5, 10, 7, 9, 48, 96, 120, 480, 960, 256, 1024, 10080, 11, 13, 768, 100 };
            for( int i = 0; i < 5; ++i )
            {
                const long long d = t.pick( all );
                long long l = d;
                for( long long x : allDivisions ) l = std::lcm( l, x );
                if( l <= 400000 ) { allDivisions.push_back( d ); return d; }
            }
            return allDivisions.empty() ? 1 : allDivisions.back();
        }
        void part( int p )
        {
            staves.push_back( 1 + (int)t.weighted( { 5, 3, 1 } ) );
            content.emplace_back( measureCount );
            times.emplace_back();
            Time time{ TimeSignatureData{}.beats, TimeSignatureData{}.beatType, true };
            for( int m = 0; m < measureCount; ++m ) measure( p, m, time );
        }
        // positions
        Fr now;
        int slack = 0;
        Fr lastChordStart;
        std::string durationText( Fr& out, long long lo, long long hi, bool& exact )
        {
            exact = true;
            long long d = t.chance( 1, 2 ) ? std::max<long long>( lo, std::min<long long>( hi, div * t.pick<int>( { 1, 2, 4, 3, 8 } ) / t.pick<int>( { 1, 2, 4, 3, 8 } ) ) ) : lo + (long long)t.below( (uint32_t)std::min<long long>( hi - lo + 1, 4096 ) );
            if( decimals && t.chance( 1, 3 ) && lo >= 1 )
            {
                const int q = t.range( 1, 3 );
                out = Fr( d * 4 + q, 4 * div );
                exact = false;
                return std::to_string( d ) + ( q == 1 ? ".25" : q == 2 ? ".5" : ".75" );
            }
            out = Fr( d, div );
            return std::to_string( d );
        }
        void attributesFirst( Node& a, int p, int m, Time& time )
        {
            const bool divs = m == 0 || t.chance( 1, 4 );
            if( divs )
            {
                if( m > 0 ) features |= 1;
                div = divisions();
                a.kids.push_back( el( "divisions", std::to_string( div ) ) );
            }
            keys( a, p, m );
            time.implicit = true;
            if( t.chance( m == 0 ? 2 : 1, m == 0 ? 3 : 4 ) )
            {
                time = { t.pick<int>( { 4, 3, 2, 6, 5, 9, 12 } ), t.pick<int>( { 4, 8, 2, 16 } ), false };
                Node tn = el( "time" );
                tn.kids.push_back( el( "beats", std::to_string( time.beats ) ) );
                tn.kids.push_back( el( "beat-type", std::to_string( time.type ) ) );
                a.kids.push_back( tn );
            }
            if( m == 0 && ( staves[p] > 1 || t.coin() ) ) a.kids.push_back( el( "staves", std::to_string( staves[p] ) ) );
            clefs( a, p, m );
        }
        void keys( Node& a, int p, int m )
        {
            if( !t.chance( 1, 4 ) ) return;
            Thing k;
            k.what = "key"; k.id = next++; k.part = p; k.measure = m; k.at = now; k.slack = slack;
            Node n = el( "key" );
            k.staff = -1;
            if( t.coin() )
            {
                k.staff = (int)t.below( staves[p] );
                n.attrs.emplace_back( "number", std::to_string( k.staff + 1 ) );
            }
            n.kids.push_back( el( "fifths", std::to_string( k.id ) ) );
            a.kids.push_back( n );
            things.push_back( k );
        }
        void clefs( Node& a, int p, int m )
        {
            if( !t.chance( 1, 3 ) ) return;
            Thing k;
            k.what = "clef"; k.id = next++; k.part = p; k.measure = m; k.at = now; k.slack = slack;
            Node n = el( "clef" );
            if( staves[p] > 1 || t.coin() )
            {
                k.staff = (int)t.below( staves[p] );
                n.attrs.emplace_back( "number", std::to_string( k.staff + 1 ) );
            }
            n.kids.push_back( el( "sign", t.pick<const char*>( { "G", "F", "C" } ) ) );
            n.kids.push_back( el( "line", "2" ) );
            n.kids.push_back( el( "clef-octave-change", std::to_string( k.id ) ) );
            a.kids.push_back( n );
            things.push_back( k );
        }
        void measure( int p, int m, Time& time )
        {
            auto& out = content[p][m];
            now = Fr();
            slack = 0;
            if( t.chance( 1, 8 ) ) { out.push_back( barline( p, m, "left" ) ); }
            if( m == 0 || t.chance( 2, 5 ) )
            {
                Node a = el( "attributes" );
                attributesFirst( a, p, m, time );
                if( !a.kids.empty() ) out.push_back( a );
            }
            else time.implicit = true;
            times[p].push_back( time );
            int segment = 0, voice = 1;
            std::map<int, int> voiceOfStaff;
            std::vector<int> used;
            const int steps = t.range( 1, 14 );
            for( int i = 0; i < steps; ++i )
            {
                switch( t.weighted( { 12, 2, 2, 4, 4, 3, 2, 2, 1 } ) )
                {
                    case 0: note( p, m, voice, false ); break;
                    case 1: note( p, m, voice, true ); features |= 2; break;
                    case 2: // forward
                    {
                        Node f = el( "forward" );
                        Fr d; bool exact;
                        f.kids.push_back( el( "duration", durationText( d, 1, 8 * div, exact ) ) );
                        if( t.chance( 1, 4 ) ) f.kids.push_back( el( "voice", std::to_string( voice ) ) );
                        if( t.chance( 1, 4 ) ) f.kids.push_back( el( "staff", std::to_string( 1 + t.below( staves[p] ) ) ) );
                        out.push_back( f );
                        now = now + d;
                        slack += decimals;
                        break;
                    }
                    case 3: // backup
                    {
                        if( now.n == 0 ) break;
                        features |= 4;
                        const int count = t.chance( 1, 6 ) ? 2 : 1;
                        bool wrote = false;
                        for( int b = 0; b < count; ++b )
                        {
                            const long long whole = now.n * div / now.d; // divisions since the start, rounded down
                            const bool over = t.chance( 1, 12 );
                            if( whole < 1 && !over ) break;
                            long long d = over ? whole + 1 + t.below( 8 ) : t.chance( 2, 3 ) ? whole : 1 + (long long)t.below( (uint32_t)std::min<long long>( whole, 1000000 ) );
                            Node f = el( "backup" );
                            wrote = true;
                            f.kids.push_back( el( "duration", std::to_string( d ) ) );
                            out.push_back( f );
                            now = over ? Fr() : now - Fr( d, div );
                            if( now.n < 0 ) now = Fr();
                            slack += decimals;
                        }
                        if( wrote ) voice = ++segment + 1;
                        break;
                    }
                    case 4: direction( p, m ); break;
                    case 5: // a change of attributes in the middle of the measure
                    {
                        Node a = el( "attributes" );
                        if( t.chance( 1, 3 ) )
                        {
                            features |= 1;
                            div = divisions();
                            a.kids.push_back( el( "divisions", std::to_string( div ) ) );
                        }
                        keys( a, p, m );
                        clefs( a, p, m );
                        if( !a.kids.empty() ) out.push_back( a );
                        break;
                    }
                    case 6: harmony( p, m ); break;
                    case 7: if( now.n > 0 ) out.push_back( barline( p, m, "middle" ) ); break;
                    default: // things without a counterpart must not disturb anything
                        out.push_back( el( t.pick<const char*>( { "print", "sound", "bookmark" } ) ) );
                        if( out.back().name == "bookmark" ) out.back().attrs.emplace_back( "id", "B" + std::to_string( next++ ) );
                }
            }
            if( t.chance( 1, 4 ) ) out.push_back( barline( p, m, "right" ) );
        }
        Node barline( int p, int m, const std::string& where )
        {
            Bar b;
            b.part = p; b.measure = m; b.at = now; b.slack = slack;
            b.where = where == "left" ? HorizontalAlignment::left : where == "right" ? HorizontalAlignment::right : HorizontalAlignment::center;
            bars.push_back( b );
            Node n = el( "barline" );
            n.attrs.emplace_back( "location", where );
            n.kids.push_back( el( "bar-style", "dashed" ) );
            return n;
        }
        void direction( int p, int m )
        {
            Thing d;
            d.what = "direction"; d.id = next++; d.part = p; d.measure = m; d.at = now; d.slack = slack;
            Node n = el( "direction" ), dt = el( "direction-type" );
            dt.kids.push_back( el( "words", "d" + std::to_string( d.id ) ) );
            n.kids.push_back( dt );
            offset( n, d );
            if( t.chance( 1, 3 ) ) n.kids.push_back( el( "voice", std::to_string( t.range( 1, 4 ) ) ) );
            staff( n, d );
            content[p][m].push_back( n );
            things.push_back( d );
        }
        void harmony( int p, int m )
        {
            Thing d;
            d.what = "harmony"; d.id = next++; d.part = p; d.measure = m; d.at = now; d.slack = slack;
            Node n = el( "harmony" ), r = el( "root" );
            n.attrs.emplace_back( "default-x", std::to_string( d.id ) );
            r.kids.push_back( el( "root-step", "D" ) );
            n.kids.push_back( r );
            n.kids.push_back( el( "kind", "major" ) );
            offset( n, d );
            staff( n, d );
            content[p][m].push_back( n );
            things.push_back( d );
        }
        void offset( Node& n, Thing& d )
        {
            if( !t.chance( 2, 5 ) ) return;
            features |= 16;
            const long long whole = now.n * div / now.d;
            long long o = t.coin() ? (long long)t.below( (uint32_t)( 4 * div ) ) : -(long long)t.below( (uint32_t)std::min<long long>( whole, 1000000 ) + 1 );
            n.kids.push_back( el( "offset", std::to_string( o ) ) );
            if( t.chance( 1, 3 ) ) n.kids.back().attrs.emplace_back( "sound", "no" );
            d.at = d.at + Fr( o, div );
            d.slack += decimals;
        }
        void staff( Node& n, Thing& d )
        {
            if( !t.chance( staves[d.part] > 1 ? 2 : 1, 3 ) ) return;
            d.staff = (int)t.below( staves[d.part] );
            d.staffGiven = true;
            n.kids.push_back( el( "staff", std::to_string( d.staff + 1 ) ) );
        }
        void note( int p, int m, int voice, bool grace )
        {
            const int members = t.chance( 1, 4 ) ? t.range( 2, 4 ) : 1;
            if( members > 1 ) features |= 8;
            const bool cue = !grace && t.chance( 1, 10 );
            const bool rest = members == 1 && t.chance( 1, 4 ) && !grace;
            Fr first;
            bool firstExact = true;
            const int staffOfAll = (int)t.below( staves[p] );
            for( int i = 0; i < members; ++i )
            {
                Thing d;
                d.what = "note"; d.id = next++; d.part = p; d.measure = m; d.at = now; d.slack = slack;
                d.chord = members > 1;
                d.type = grace ? NoteType::grace : cue ? NoteType::cue : NoteType::normal;
                Node n = el( "note" );
                n.attrs.emplace_back( "default-x", std::to_string( d.id ) );
                if( grace ) n.kids.push_back( el( "grace" ) );
                if( cue ) n.kids.push_back( el( "cue" ) );
                if( i > 0 ) n.kids.push_back( el( "chord" ) );
                if( rest ) n.kids.push_back( el( "rest" ) );
                else
                {
                    Node pi = el( "pitch" );
                    pi.kids.push_back( el( "step", t.pick<const char*>( { "C", "D", "G" } ) ) );
                    pi.kids.push_back( el( "octave", std::to_string( t.range( 2, 6 ) ) ) );
                    n.kids.push_back( pi );
                }
                if( !grace )
                {
                    // another member's duration may be shorter than the first one's, not longer
                    const long long most = i == 0 ? 8 * div : std::max<long long>( 1, first.n * div / first.d );
                    std::string text;
                    if( i == 0 || t.chance( 1, 4 ) ) text = durationText( d.lasts, 1, most, d.lastsExact );
                    if( i > 0 && ( text.empty() || first < d.lasts ) )
                    {
                        d.lasts = first;
                        d.lastsExact = firstExact;
                        text = firstText;
                    }
                    if( i == 0 ) { first = d.lasts; firstText = text; firstExact = d.lastsExact; }
                    n.kids.push_back( el( "duration", text ) );
                }
                if( messy )
                {
                    if( t.chance( 3, 4 ) ) d.voice = t.range( 1, 6 );
                }
                else d.voice = voice;
                d.voiceKnown = !messy;
                if( d.voice > 0 ) n.kids.push_back( el( "voice", std::to_string( d.voice ) ) );
                if( t.chance( 2, 3 ) )
                {
                    auto& ty = t.pick( types() );
                    d.name = ty.second.first;
                    n.kids.push_back( el( "type", ty.first ) );
                }
                else
                {
                    for( auto& ty : types() ) if( d.lasts == ty.second.second ) d.name = ty.second.first;
                    if( d.name != DurationName::unspecified ) features |= 32;
                }
                if( t.chance( 1, 6 ) )
                {
                    d.dots = t.range( 1, 3 );
                    for( int k = 0; k < d.dots; ++k ) n.kids.push_back( el( "dot" ) );
                }
                d.staff = i > 0 && t.chance( 1, 6 ) ? (int)t.below( staves[p] ) : staffOfAll;
                if( d.staff > 0 || staves[p] > 1 || t.chance( 1, 4 ) ) n.kids.push_back( el( "staff", std::to_string( d.staff + 1 ) ) );
                content[p][m].push_back( n );
                d.order = (int)things.size();
                things.push_back( d );
            }
            if( !grace )
            {
                now = now + first;
                slack += decimals;
            }
        }
        std::string firstText;

        Node document( bool timewise )
        {
            Node root = el( timewise ? "score-timewise" : "score-partwise" );
            root.attrs.emplace_back( "version", "3.0" );
            Node list = el( "part-list" );
            for( int p = 0; p < partCount; ++p )
            {
                Node sp = el( "score-part" );
                sp.attrs.emplace_back( "id", "P" + std::to_string( p + 1 ) );
                sp.kids.push_back( el( "part-name", "x" ) );
                list.kids.push_back( sp );
            }
            root.kids.push_back( list );
            for( int a = 0; a < ( timewise ? measureCount : partCount ); ++a )
            {
                Node outer = el( timewise ? "measure" : "part" );
                outer.attrs.emplace_back( timewise ? "number" : "id", timewise ? std::to_string( a + 1 ) : "P" + std::to_string( a + 1 ) );
                for( int b = 0; b < ( timewise ? partCount : measureCount ); ++b )
                {
                    Node inner = el( timewise ? "part" : "measure" );
                    inner.attrs.emplace_back( timewise ? "id" : "number", timewise ? "P" + std::to_string( b + 1 ) : std::to_string( b + 1 ) );
                    inner.kids = timewise ? content[b][a] : content[a][b];
                    outer.kids.push_back( inner );
                }
                root.kids.push_back( outer );
            }
            return root;
        }
    };

    void check( pbt::Tape& t, pbt::Ctx& c )
    {
        Program g( t );
        g.run();
        const bool timewise = t.chance( 1, 6 );
        const std::string text = xml::serialize( g.document( timewise ) );
        c.input( text );
        auto& dm = DocumentManager::getInstance();
        int id = -1;
        ScoreData s;
        try
        {
            std::istringstream is( text );
            id = dm.createFromStream( is );
            s = dm.getData( id );
            dm.destroyDocument( id );
        }
        catch( const std::exception& e )
        {
            if( id >= 0 ) dm.destroyDocument( id );
            c.fail( "refused", std::string( "the document or its data is refused: " ) + e.what() + "\n" );
            return;
        }
        const long long q = s.ticksPerQuarter;
        for( long long d : g.allDivisions ) if( q <= 0 || q % d ) { c.fail( "ticks-per-quarter", "ticksPerQuarter " + std::to_string( q ) + " is not a multiple of the divisions " + std::to_string( d ) + "\n" ); return; }
        auto same = [&]( const Fr& want, int tick, int slack )
        {
            const long double w = (long double)want.n * q / want.d;
            if( !g.decimals ) return w == (long double)tick;
            return std::fabs( w - tick ) <= 0.5L * ( slack + 1 ) + 1e-9L;
        };
        auto show = [&]( const Thing& x ) { return x.what + " " + std::to_string( x.id ) + " (part " + std::to_string( x.part ) + ", measure " + std::to_string( x.measure ) + ")"; };
        // every thing is found once, at its place
        struct Found { int part, measure, staff, voice, order; const NoteData* note; const DirectionData* dir; int tick; bool isKey; };
        std::map<int, std::vector<Found>> found;
        if( (int)s.parts.size() != g.partCount ) { c.fail( "parts", "wrong number of parts\n" ); return; }
        for( int p = 0; p < g.partCount; ++p )
        {
            auto& part = s.parts[p];
            if( part.uniqueId != "P" + std::to_string( p + 1 ) || (int)part.measures.size() != g.measureCount ) { c.fail( "measures", "wrong parts or measures\n" ); return; }
            for( int m = 0; m < g.measureCount; ++m )
            {
                auto& me = part.measures[m];
                if( (int)me.staves.size() != g.staves[p] ) c.fail( "staves", "part " + std::to_string( p ) + " has " + std::to_string( me.staves.size() ) + " staves instead of " + std::to_string( g.staves[p] ) + "\n" );
                const Time& tm = g.times[p][m];
                if( me.timeSignature.beats != tm.beats || me.timeSignature.beatType != tm.type || me.timeSignature.isImplicit != tm.implicit )
                    c.fail( "time-signature", "part " + std::to_string( p ) + " measure " + std::to_string( m ) + ": " + std::to_string( me.timeSignature.beats ) + "/" + std::to_string( me.timeSignature.beatType ) + " instead of " + std::to_string( tm.beats ) + "/" + std::to_string( tm.type ) + "\n" );
                for( auto& k : me.keys ) found[k.fifths].push_back( { p, m, k.staffIndex, 0, 0, nullptr, nullptr, k.tickTimePosition, true } );
                size_t bi = 0;
                for( auto& b : g.bars ) if( b.part == p && b.measure == m )
                {
                    if( bi >= me.barlines.size() ) { c.fail( "barline-lost", "a barline is missing\n" ); break; }
                    auto& x = me.barlines[bi++];
                    if( x.location != b.where ) c.fail( "barline-location", "a barline's location differs\n" );
                    else if( b.where == HorizontalAlignment::right ? x.tickTimePosition != TICK_TIME_INFINITY : !same( b.at, x.tickTimePosition, b.slack ) )
                        c.fail( "barline-time", "part " + std::to_string( p ) + " measure " + std::to_string( m ) + ": a barline at quarter " + b.at.show() + " has tick " + std::to_string( x.tickTimePosition ) + " of " + std::to_string( q ) + "\n" );
                }
                if( bi < me.barlines.size() ) c.fail( "barline-extra", "a barline appeared\n" );
                for( int st = 0; st < (int)me.staves.size(); ++st )
                {
                    auto& sd = me.staves[st];
                    for( auto& k : sd.keys ) found[k.fifths].push_back( { p, m, st, 0, 0, nullptr, nullptr, k.tickTimePosition, true } );
                    for( auto& k : sd.clefs ) found[k.octaveChange].push_back( { p, m, st, 0, 0, nullptr, nullptr, k.tickTimePosition, false } );
                    for( auto& d : sd.directions )
                    {
                        int did = 0;
                        if( d.words.size() == 1 && d.chords.empty() ) did = atoi( d.words[0].text.c_str() + 1 );
                        else if( d.words.empty() && d.chords.size() == 1 ) did = (int)d.chords[0].positionData.defaultX;
                        found[did].push_back( { p, m, st, 0, 0, nullptr, &d, d.tickTimePosition, false } );
                    }
                    for( auto& v : sd.voices )
                    {
                        int order = 0;
                        for( auto& n : v.second.notes ) found[(int)n.positionData.defaultX].push_back( { p, m, st, v.first, order++, &n, nullptr, n.tickTimePosition, false } );
                    }
                }
            }
        }
        std::map<std::vector<int>, int> lastOrder;
        size_t total = 0;
        for( auto& x : g.things )
        {
            auto it = found.find( x.id );
            if( it == found.end() || it->second.size() != 1 ) { c.fail( x.what + "-count", show( x ) + " is found " + std::to_string( it == found.end() ? 0 : it->second.size() ) + " times\n" ); continue; }
            ++total;
            const Found& f = it->second[0];
            const std::string name = show( x );
            if( f.part != x.part || f.measure != x.measure ) c.fail( x.what + "-place", name + " is in part " + std::to_string( f.part ) + " measure " + std::to_string( f.measure ) + "\n" );
            if( f.staff != x.staff ) c.fail( x.what + "-staff", name + " is in staff " + std::to_string( f.staff ) + " instead of " + std::to_string( x.staff ) + "\n" );
            if( !same( x.at, f.tick, x.slack ) ) c.fail( x.what + "-time", name + " is at tick " + std::to_string( f.tick ) + " instead of quarter " + x.at.show() + " with " + std::to_string( q ) + " ticks\n" );
            if( x.what == "note" )
            {
                if( !f.note ) { c.fail( "note-kind", name + " is no note\n" ); continue; }
                const auto& n = *f.note;
                if( !same( x.lasts, n.durationData.durationTimeTicks, 0 ) ) c.fail( "note-duration", name + " lasts " + std::to_string( n.durationData.durationTimeTicks ) + " ticks instead of " + x.lasts.show() + " quarters with " + std::to_string( q ) + " ticks\n" );
                if( n.isChord != x.chord ) c.fail( "note-chord", name + ( x.chord ? " is not marked as a chord member\n" : " is marked as a chord member\n" ) );
                if( n.noteType != x.type ) c.fail( "note-type", name + " is of the wrong type\n" );
                if( n.durationData.durationName != x.name ) c.fail( "note-duration-name", name + " has duration name " + std::to_string( (int)n.durationData.durationName ) + " instead of " + std::to_string( (int)x.name ) + "\n" );
                if( n.durationData.durationDots != x.dots ) c.fail( "note-dots", name + " has " + std::to_string( n.durationData.durationDots ) + " dots instead of " + std::to_string( x.dots ) + "\n" );
                if( x.voice > 0 && n.userRequestedVoiceNumber != x.voice ) c.fail( "note-voice-number", name + " has voice number " + std::to_string( n.userRequestedVoiceNumber ) + " instead of " + std::to_string( x.voice ) + "\n" );
                if( x.voiceKnown && f.voice != x.voice - 1 ) c.fail( "note-voice", name + " is in voice " + std::to_string( f.voice ) + " instead of " + std::to_string( x.voice - 1 ) + "\n" );
                auto& last = lastOrder[{ f.part, f.measure, f.staff, f.voice }];
                if( f.order < last ) c.fail( "note-order", name + " is out of order within its voice\n" );
                last = f.order;
            }
            if( x.what == "direction" || x.what == "harmony" )
            {
                if( !f.dir ) { c.fail( x.what + "-kind", name + " is no direction\n" ); continue; }
                if( f.dir->isStaffValueSpecified != x.staffGiven ) c.fail( x.what + "-staff-given", name + ": isStaffValueSpecified is " + ( x.staffGiven ? "not set\n" : "set\n" ) );
            }
        }
        size_t all = 0;
        for( auto& f : found ) all += f.second.size();
        if( all != g.things.size() && !c.failed() ) c.fail( "extra", std::to_string( all ) + " things instead of " + std::to_string( g.things.size() ) + "\n" );
        static const char* names[] = { "divisions change", "grace", "backup", "chord", "offset", "derived type" };
        int features = 0;
        for( int i = 0; i < 6; ++i ) if( g.features & ( 1 << i ) ) { c.tag( names[i] ); ++features; }
        if( timewise ) c.tag( "timewise" );
        if( g.decimals ) c.tag( "decimal durations" );
        if( g.messy ) c.tag( "mixed voices" );
        c.tag( "elements located", total );
        if( features >= 2 ) c.nontrivial( text );
    }
    PBT_PROPERTY( pbt::Property{ "A07", "programs", "two or more of: divisions change, grace note, backup, chord, offset, derived type; distinct by document", check, 25000, 600000 } );
}
