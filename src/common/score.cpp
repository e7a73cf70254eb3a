#include "common/score.h"
#include "common/xml.h"
#include <fstream>
#include <set>
#include <sstream>
#include <unistd.h>

namespace score
{
    using pbt::Tape;

    // ------------------------------------------------------------------ ways through the library
    const char* wayName( Way w )
    {
        switch( w )
        {
        case Way::memory: return "memory";
        case Way::text: return "text";
        case Way::file: return "file";
        default: return "timewise";
        }
    }
    namespace
    {
        struct Doc
        {
            int id = -1;
            ~Doc()
            {
                if( id >= 0 ) DocumentManager::getInstance().destroyDocument( id );
            }
        };
    }
    std::string write( const ScoreData& s )
    {
        auto& m = DocumentManager::getInstance();
        Doc d{ m.createFromScore( s ) };
        std::ostringstream os;
        m.writeToStream( d.id, os );
        return os.str();
    }
    ScoreData read( const std::string& x )
    {
        auto& m = DocumentManager::getInstance();
        std::istringstream is( x );
        Doc d{ m.createFromStream( is ) };
        return m.getData( d.id );
    }
    ScoreData trip( const ScoreData& in, Way w, std::string& x )
    {
        auto& m = DocumentManager::getInstance();
        ScoreData s = in;
        s.musicXmlType = w == Way::timewise ? "timewise" : "partwise";
        Doc d{ m.createFromScore( s ) };
        {
            std::ostringstream os;
            m.writeToStream( d.id, os );
            x = os.str();
        }
        if( w == Way::memory ) return m.getData( d.id );
        if( w == Way::file )
        {
            const std::string f = pbt::scratchDir() + "/trip.xml";
            m.writeToFile( d.id, f );
            Doc e{ m.createFromFile( f ) };
            ::unlink( f.c_str() );
            return m.getData( e.id );
        }
        return read( x );
    }

    // ------------------------------------------------------------------ small values
    std::string word( Tape& t )
    {
        static const char* const w[] = { "a", "Oboe", "solo", "II", "mezzo piano", "cresc.", "x1", "Violin I", "B", "dolce", "page 3", "0", "-7", "1.0" };
        return w[t.below( sizeof w / sizeof *w )];
    }
    std::string text( Tape& t, bool rich )
    {
        if( !rich || t.chance( 2, 3 ) ) return word( t );
        // any characters; blanks at the ends and runs of blanks are the reader's to normalise
        std::string s = xml::genText( t, true );
        return s.empty() ? word( t ) : s;
    }
    static long double tenths( Tape& t )
    {
        switch( t.below( 4 ) )
        {
        case 0: return t.around( -100, 100, 0 );
        case 1: return t.around( -2000, 2000, 0 ) / 8.0L;
        case 2: return t.around( -1000000, 1000000, 0 ) / 1000.0L;
        default: return 0;
        }
    }
    static long double positiveTenths( Tape& t )
    {
        long double d = tenths( t );
        return d < 0 ? -d : d;
    }
    PositionData position( Tape& t, bool placement, bool align )
    {
        PositionData p;
        if( t.chance( 1, 2 ) ) { p.isDefaultXSpecified = true; p.defaultX = tenths( t ); }
        if( t.chance( 1, 2 ) ) { p.isDefaultYSpecified = true; p.defaultY = tenths( t ); }
        if( t.chance( 1, 3 ) ) { p.isRelativeXSpecified = true; p.relativeX = tenths( t ); }
        if( t.chance( 1, 3 ) ) { p.isRelativeYSpecified = true; p.relativeY = tenths( t ); }
        if( placement ) p.placement = gen::randomEnum<Placement>( t );
        if( align )
        {
            p.verticalAlignment = gen::randomEnum<VerticalAlignment>( t );
            p.horizontalAlignmnet = gen::randomEnum<HorizontalAlignment>( t );
        }
        return p;
    }
    ColorData color( Tape& t )
    {
        ColorData c;
        auto b = [&] { return (decltype( c.red ))t.pick<int>( { 0, 1, 9, 10, 15, 16, 127, 128, 254, 255, (int)t.below( 256 ) } ); };
        c.red = b(), c.green = b(), c.blue = b();
        if( t.chance( 1, 3 ) ) { c.isAlphaSpecified = true; c.alpha = b(); }
        return c;
    }
    FontData font( Tape& t, bool decorations )
    {
        FontData f;
        switch( t.below( 3 ) )
        {
        case 1: f.sizeType = FontSizeType::point; f.sizePoint = t.around( 1, 2000, 96 ) / 8.0L; break;
        case 2: f.sizeType = FontSizeType::css; f.sizeCss = (CssSize)t.range( (int)CssSize::xxSmall, (int)CssSize::xxLarge ); break;
        default: break;
        }
        if( t.chance( 1, 3 ) ) f.style = gen::randomEnum<FontStyle>( t );
        if( t.chance( 1, 3 ) ) f.weight = gen::randomEnum<FontWeight>( t );
        while( f.fontFamily.size() < 3 && t.more( 0.7 ) ) f.fontFamily.push_back( t.pick<const char*>( { "Times", "Arial", "Opus Text", "a", "Bravura-Bold" } ) );
        if( decorations )
        {
            if( t.chance( 1, 3 ) ) f.underline = t.range( 0, 3 );
            if( t.chance( 1, 3 ) ) f.overline = t.range( 0, 3 );
            if( t.chance( 1, 3 ) ) f.lineThrough = t.range( 0, 3 );
        }
        return f;
    }
    MarkType articulation( Tape& t ) { return (MarkType)t.range( (int)MarkType::accent, (int)MarkType::otherArticulation ); }

    static LineData line( Tape& t, bool dashes )
    {
        LineData l;
        if( t.coin() ) l.lineType = gen::randomEnum<LineType>( t );
        if( dashes )
        {
            if( t.coin() ) { l.isDashLengthSpecified = true; l.dashLength = positiveTenths( t ); }
            if( t.coin() ) { l.isSpaceLengthSpecified = true; l.spaceLength = positiveTenths( t ); }
        }
        return l;
    }

    // ------------------------------------------------------------------ the generator
    namespace
    {
        struct Gen
        {
            Tape& t;
            const Opts& o;
            ScoreData s;
            int numMeasures = 1;

            bool on( int density ) { return density > 0 && t.chance( (uint32_t)std::min( density, 100 ), 100 ); }
            std::string txt() { return text( t, o.text ); }

            // ---- notes
            DurationName durationName() { return (DurationName)t.range( (int)DurationName::maxima, (int)DurationName::dur1024th ); }

            void noteFields( NoteData& n, int voice )
            {
                n.userRequestedVoiceNumber = voice + 1;
                n.durationData.durationName = DurationName::quarter;
                if( on( o.notes ) ) n.durationData.durationName = durationName();
                if( on( o.notes / 3 ) ) n.durationData.durationDots = t.range( 0, 4 );
                switch( n.isRest ? 3 : t.below( 8 ) )
                {
                case 0: n.isUnpitched = true; break;
                default: break;
                }
                if( n.isRest || n.isUnpitched )
                {
                    n.pitchData = PitchData{};
                    if( on( o.notes / 2 ) )
                    {
                        n.isDisplayStepOctaveSpecified = true;
                        n.pitchData.step = (Step)t.below( 7 );
                        n.pitchData.octave = t.range( 0, 9 );
                    }
                }
                else
                {
                    n.pitchData.step = (Step)t.below( 7 );
                    n.pitchData.octave = on( o.notes ) ? t.range( 0, 9 ) : 4;
                    if( on( o.notes / 2 ) ) n.pitchData.alter = t.range( -3, 3 );
                    // a fraction of a semitone points away from zero, the form the reader gives
                    if( on( o.notes / 5 ) ) n.pitchData.cents = n.pitchData.alter > 0 ? t.range( 0, 99 ) : n.pitchData.alter < 0 ? -t.range( 0, 99 ) : t.range( -99, 99 );
                }
                if( on( o.notes / 3 ) && !n.isRest ) 
                {
                    auto& a = n.pitchData;
                    a.accidental = gen::randomEnum<Accidental>( t );
                    if( a.accidental != Accidental::none && t.chance( 1, 3 ) )
                    {
                        a.isAccidentalParenthetical = t.coin();
                        a.isAccidentalCautionary = t.coin();
                        a.isAccidentalEditorial = t.coin();
                        a.isAccidentalBracketed = t.coin();
                    }
                }
                if( on( o.notes / 3 ) ) n.stem = gen::randomEnum<Stem>( t );
                if( on( o.notes / 4 ) ) n.notehead = gen::randomEnum<Notehead>( t );
                if( on( o.notes / 4 ) )
                    for( int k = t.range( 1, 8 ); k > 0; --k ) n.beams.push_back( (Beam)t.range( (int)Beam::begin, (int)Beam::backwardBroken ) );
                if( on( o.notes / 4 ) ) n.positionData = position( t, false, false );
                if( on( o.notes / 4 ) )
                {
                    if( t.coin() ) n.printData.fontData = font( t, false );
                    if( t.coin() ) { n.printData.isColorSpecified = true; n.printData.color = color( t ); }
                    n.printData.printObject = gen::randomEnum<Bool>( t );
                }
                if( on( o.notes / 4 ) )
                {
                    auto& d = n.durationData;
                    d.timeModificationActualNotes = t.range( 1, 13 );
                    d.timeModificationNormalNotes = t.range( 2, 13 );
                    // a normal type that is the note's own is left out in the score data (unless it has dots);
                    // one that is left out is taken from the tuplet start, if there is one
                    d.timeModificationNormalType = durationName();
                    d.timeModificationNormalTypeDots = t.pick<int>( { 0, 1, 2 } );
                    if( d.timeModificationNormalTypeDots == 0 && d.timeModificationNormalType == d.durationName ) d.timeModificationNormalTypeDots = 1;
                }
                if( on( o.notes / 8 ) )
                    for( int k = t.range( 1, 3 ); k > 0; --k ) n.miscData.push_back( t.pick<const char*>( { "x", "key=value", "some data", "10%", "A;B" } ) );
                if( on( o.attachments ) ) attachments( n );
            }

            CurvePoints curvePoints( bool isBezier )
            {
                CurvePoints c;
                if( t.coin() ) c.positionData = position( t, false, false );
                if( isBezier && t.coin() )
                {
                    if( t.coin() ) { c.isBezierXSpecified = true; c.bezierX = tenths( t ); }
                    if( t.coin() ) { c.isBezierYSpecified = true; c.bezierY = tenths( t ); }
                    if( t.coin() ) { c.isBezierOffsetSpecified = true; c.bezierOffset = t.range( -50, 50 ); }
                }
                return c;
            }
            int level() { return t.chance( 1, 3 ) ? -1 : t.range( 1, 6 ); }

            static std::string dynamicName( MarkType m )
            {
                static const char* names[] = { "p", "pp", "ppp", "pppp", "ppppp", "pppppp", "f", "ff", "fff", "ffff", "fffff", "ffffff", "mp", "mf", "sf", "sfp", "sfpp", "fp", "rf", "rfz", "sfz", "sffz", "fz" };
                return names[(int)m - (int)MarkType::p];
            }
            MarkData mark( MarkType m, int tick )
            {
                MarkData d;
                d.markType = m;
                d.tickTimePosition = tick;
                return d;
            }
            void attachments( NoteData& n )
            {
                auto& a = n.noteAttachmentData;
                if( t.chance( 1, 3 ) ) curves( n, CurveType::slur );
                if( t.chance( 1, 3 ) ) ties( n );
                if( t.chance( 1, 4 ) ) tuplets( n );
                if( t.chance( 2, 3 ) ) marks( n );
                (void)a;
            }
            void curves( NoteData& n, CurveType type )
            {
                auto& a = n.noteAttachmentData;
                for( int k = 0; k < 2 && t.more( 0.5 ); ++k )
                {
                    CurveStop c( type );
                    c.numberLevel = level();
                    c.curvePoints = curvePoints( true );
                    a.curveStops.push_back( c );
                }
                for( int k = 0; k < 2 && t.more( 0.5 ); ++k )
                {
                    CurveContinue c( type );
                    c.numberLevel = level();
                    c.curvePoints = curvePoints( true );
                    if( t.chance( 1, 4 ) ) { c.isBezierX2Specified = true; c.bezierX2 = tenths( t ); }
                    if( t.chance( 1, 4 ) ) { c.isBezierY2Specified = true; c.bezierY2 = tenths( t ); }
                    if( t.chance( 1, 4 ) ) { c.isBezierOffset2Specified = true; c.bezierOffset2 = t.range( -50, 50 ); }
                    a.curveContinuations.push_back( c );
                }
                for( int k = 0; k < 3 && t.more( 1.5 ); ++k )
                {
                    CurveStart c( type );
                    c.numberLevel = level();
                    c.curvePoints = curvePoints( true );
                    c.curveOrientation = gen::randomEnum<CurveOrientation>( t );
                    if( t.coin() ) c.lineData = line( t, true );
                    if( t.chance( 1, 3 ) ) { c.isColorSpecified = true; c.colorData = color( t ); }
                    a.curveStarts.push_back( c );
                }
            }
            // a tied notation without a tie is carried as it is; a tie always comes with its notation
            void ties( NoteData& n )
            {
                curves( n, CurveType::tie );
                if( n.noteType == NoteType::cue ) return;
                for( auto& c : n.noteAttachmentData.curveStarts ) if( c.curveType == CurveType::tie && t.coin() ) n.isTieStart = true;
                for( auto& c : n.noteAttachmentData.curveStops ) if( c.curveType == CurveType::tie && t.coin() ) n.isTieStop = true;
            }
            // the name the reader gives every mark which has no text of its own
            static std::string markName( MarkType m )
            {
                if( m >= MarkType::tremoloSingleOne && m <= MarkType::tremoloSingleFive ) return "tremolo";
                switch( m )
                {
                case MarkType::accent: return "accent"; case MarkType::strongAccent: return "strong-accent"; case MarkType::staccato: return "staccato"; case MarkType::tenuto: return "tenuto"; case MarkType::detachedLegato: return "detached-legato"; case MarkType::staccatissimo: return "staccatissimo"; case MarkType::spiccato: return "spiccato"; case MarkType::scoop: return "scoop"; case MarkType::plop: return "plop"; case MarkType::doit: return "doit"; case MarkType::falloff: return "falloff"; case MarkType::breathMark: return "breath-mark"; case MarkType::caesura: return "caesura"; case MarkType::stress: return "stress"; case MarkType::unstress: return "unstress"; case MarkType::trillMark: return "trill-mark"; case MarkType::turn: return "turn"; case MarkType::delayedTurn: return "delayed-turn"; case MarkType::invertedTurn: return "inverted-turn"; case MarkType::delayedInvertedTurn: return "delayed-inverted-turn"; case MarkType::verticalTurn: return "vertical-turn"; case MarkType::shake: return "shake"; case MarkType::wavyLine: return "wavy-line"; case MarkType::mordent: return "mordent"; case MarkType::invertedMordent: return "inverted-mordent"; case MarkType::schleifer: return "schleifer"; case MarkType::upBow: return "up-bow"; case MarkType::downBow: return "down-bow"; case MarkType::harmonic: return "harmonic"; case MarkType::openString: return "open-string"; case MarkType::thumbPosition: return "thumb-position"; case MarkType::doubleTongue: return "double-tongue"; case MarkType::tripleTongue: return "triple-tongue"; case MarkType::stopped: return "stopped"; case MarkType::snapPizzicato: return "snap-pizzicato"; case MarkType::heel: return "heel"; case MarkType::toe: return "toe"; case MarkType::fingernails: return "fingernails";
                default: return "";
                }
            }
            void tuplets( NoteData& n )
            {
                auto& a = n.noteAttachmentData;
                while( a.tupletStops.size() < 2 && t.more( 0.7 ) )
                {
                    TupletStop p;
                    p.numberLevel = level();
                    if( t.chance( 1, 3 ) ) p.positionData = position( t, true, false );
                    a.tupletStops.push_back( p );
                }
                while( a.tupletStarts.size() < 2 && t.more( 0.7 ) )
                {
                    TupletStart p;
                    p.numberLevel = level();
                    if( t.chance( 1, 3 ) ) p.positionData = position( t, true, false );
                    p.actualNumber = t.range( 0, 13 );
                    p.normalNumber = t.range( 0, 13 );
                    p.actualDurationName = durationName();
                    p.normalDurationName = durationName();
                    p.actualDots = t.pick<int>( { -1, 1, 2, 3 } );
                    p.normalDots = t.pick<int>( { -1, 1, 2, 3 } );
                    p.bracket = gen::randomEnum<Bool>( t );
                    switch( t.below( 4 ) )
                    {
                    case 0: p.showActualNumber = Bool::yes; p.showNormalNumber = Bool::yes; break;
                    case 1: p.showActualNumber = Bool::yes; p.showNormalNumber = Bool::no; break;
                    case 2: p.showActualNumber = Bool::no; p.showNormalNumber = Bool::no; break;
                    default: break;
                    }
                    a.tupletStarts.push_back( p );
                }
            }
            void marks( NoteData& n )
            {
                auto& a = n.noteAttachmentData;
                const int tick = n.tickTimePosition;
                // the reader's documented order: dynamics and fermatas as they come, then each group
                auto several = [&]( MarkType lo, MarkType hi, bool pos, bool print )
                {
                    for( int k = t.range( 1, 3 ); k > 0; --k )
                    {
                        MarkData m = mark( (MarkType)t.range( (int)lo, (int)hi ), tick );
                        if( m.markType == MarkType::unknownDynamics || m.markType == MarkType::unknownOrnament || m.markType == MarkType::unknownTechnical || m.markType == MarkType::unknownFermata ) continue;
                        if( m.markType >= MarkType::p && m.markType <= MarkType::fz ) m.name = dynamicName( m.markType );
                        else m.name = markName( m.markType );
                        if( m.markType == MarkType::otherDynamics || m.markType == MarkType::otherOrnament || m.markType == MarkType::otherTechnical || m.markType == MarkType::otherArticulation ) m.name = word( t );
                        if( pos && t.coin() ) m.positionData = position( t, true, false );
                        if( print && t.coin() )
                        {
                            m.printData.fontData = font( t, false );
                            const bool accidental = m.markType >= MarkType::accidentalMarkSharp && m.markType <= MarkType::accidentalMarkKoron; // core has no color for it
                            if( !accidental && t.coin() ) { m.printData.isColorSpecified = true; m.printData.color = color( t ); }
                        }
                        if( m.markType >= MarkType::fermata && m.markType <= MarkType::fermataSquareInverted ) m.positionData.placement = Placement::unspecified; // MusicXML has no placement of a fermata
                        a.marks.push_back( m );
                    }
                };
                if( t.chance( 1, 3 ) ) several( MarkType::p, MarkType::otherDynamics, true, true );
                if( t.chance( 1, 3 ) ) several( MarkType::fermata, MarkType::fermataSquareInverted, true, true );
                if( t.chance( 1, 4 ) ) several( MarkType::arpeggiate, MarkType::arpeggiateUp, true, false );
                if( t.chance( 1, 4 ) ) several( MarkType::accidentalMarkSharp, MarkType::accidentalMarkKoron, true, true );
                if( t.chance( 1, 3 ) ) several( MarkType::accent, MarkType::otherArticulation, true, false );
                if( t.chance( 1, 3 ) ) several( MarkType::trillMark, MarkType::otherOrnament, true, false );
                if( t.chance( 1, 3 ) ) several( MarkType::upBow, MarkType::otherTechnical, true, false );
            }

            // one voice: sequential notes, chords, rests, grace notes and gaps from tick 0
            VoiceData voice( int voiceIndex, int length )
            {
                VoiceData v;
                int now = 0;
                int items = t.range( 1, o.maxItems );
                auto ticks = [&]( int left )
                {
                    const int q = s.ticksPerQuarter;
                    int d = t.pick<int>( { q, q / 2, q * 2, q / 3, q / 4, q * 3 / 2, q * 4, t.around( 1, std::max( 1, left ), 1 ) } );
                    return std::max( 1, std::min( d, left ) );
                };
                if( t.chance( 1, 6 ) ) now = ticks( length - 1 ) % length; // a voice may start late
                bool any = false; // a sounding note was written (a voice of grace notes only has no length)
                for( ; items > 0 && now < length; --items )
                {
                    switch( t.weighted( { 8, 3, 3, 2, 2, 1 } ) )
                    {
                    default: // note
                    case 0:
                    {
                        NoteData n;
                        n.tickTimePosition = now;
                        n.durationData.durationTimeTicks = ticks( length - now );
                        noteFields( n, voiceIndex );
                        now += n.durationData.durationTimeTicks;
                        v.notes.push_back( n );
                        any = true;
                        break;
                    }
                    case 1: // rest
                    {
                        NoteData n;
                        n.isRest = true;
                        n.tickTimePosition = now;
                        n.durationData.durationTimeTicks = ticks( length - now );
                        noteFields( n, voiceIndex );
                        now += n.durationData.durationTimeTicks;
                        v.notes.push_back( n );
                        any = true;
                        break;
                    }
                    case 2: // chord
                    {
                        const int d = ticks( length - now );
                        for( int k = t.range( 2, 4 ); k > 0; --k )
                        {
                            NoteData n;
                            n.isChord = true;
                            n.tickTimePosition = now;
                            n.durationData.durationTimeTicks = d;
                            noteFields( n, voiceIndex );
                            v.notes.push_back( n );
                        }
                        now += d;
                        any = true;
                        break;
                    }
                    case 3: // grace notes before a note
                    {
                        for( int k = t.range( 1, 3 ); k > 0; --k )
                        {
                            NoteData n;
                            n.noteType = NoteType::grace;
                            n.tickTimePosition = now;
                            noteFields( n, voiceIndex );
                            n.durationData.durationTimeTicks = 0;
                            v.notes.push_back( n );
                        }
                        NoteData n;
                        n.tickTimePosition = now;
                        n.durationData.durationTimeTicks = ticks( length - now );
                        noteFields( n, voiceIndex );
                        now += n.durationData.durationTimeTicks;
                        v.notes.push_back( n );
                        any = true;
                        break;
                    }
                    case 4: // gap
                        if( any ) now += ticks( length - now );
                        break;
                    case 5: // cue note
                    {
                        NoteData n;
                        n.noteType = NoteType::cue;
                        n.tickTimePosition = now;
                        n.durationData.durationTimeTicks = ticks( length - now );
                        noteFields( n, voiceIndex );
                        now += n.durationData.durationTimeTicks;
                        v.notes.push_back( n );
                        any = true;
                        break;
                    }
                    }
                }
                if( !any )
                {
                    NoteData n;
                    n.isRest = true;
                    n.tickTimePosition = now;
                    n.durationData.durationTimeTicks = std::max( 1, length );
                    noteFields( n, voiceIndex );
                    if( t.coin() )
                    {
                        n.isMeasureRest = true;
                        n.durationData.durationName = DurationName::unspecified;
                        // the reader names a duration that equals one of the plain note lengths
                        const std::pair<DurationName, double> plain[] = { { DurationName::whole, 4 }, { DurationName::half, 2 }, { DurationName::quarter, 1 }, { DurationName::eighth, 0.5 }, { DurationName::dur16th, 0.25 }, { DurationName::dur32nd, 0.125 }, { DurationName::dur64th, 0.0625 }, { DurationName::dur128th, 0.03125 }, { DurationName::dur256th, 1.0 / 64 }, { DurationName::dur512th, 1.0 / 128 }, { DurationName::dur1024th, 1.0 / 256 }, { DurationName::breve, 8 }, { DurationName::longa, 16 }, { DurationName::maxima, 32 } };
                        for( auto& q : plain )
                            if( q.second * s.ticksPerQuarter == n.durationData.durationTimeTicks ) n.durationData.durationName = q.first;
                        auto& d = n.durationData;
                        if( d.timeModificationNormalTypeDots == 0 && d.timeModificationNormalType == d.durationName && d.timeModificationNormalType != DurationName::unspecified ) d.timeModificationNormalTypeDots = 1;
                    }
                    v.notes.push_back( n );
                }
                return v;
            }

            // ---- directions
            DirectionData direction( int tick, int staffIndex, int numStaves )
            {
                DirectionData d;
                d.tickTimePosition = tick;
                (void)staffIndex, (void)numStaves;
                d.isStaffValueSpecified = t.chance( 9, 10 );
                if( staffIndex > 0 ) d.isStaffValueSpecified = true;
                if( t.chance( 1, 8 ) )
                {
                    d.placement = gen::randomEnum<Placement>( t );
                    chords( d );
                    return d;
                }
                d.placement = gen::randomEnum<Placement>( t );
                bool first = true;
                while( first || t.chance( 1, 3 ) )
                {
                    first = false;
                    switch( t.below( 11 ) )
                    {
                    case 6:
                    {
                        if( t.coin() )
                        {
                            SpannerStart x;
                            x.tickTimePosition = tick;
                            if( t.coin() ) x.numberLevel = t.range( 1, 6 );
                            if( t.coin() ) x.positionData = position( t, false, false );
                            if( t.coin() ) x.lineData = line( t, true );
                            x.lineData.lineHook = (LineHook)t.range( (int)LineHook::down, (int)LineHook::none );
                            if( t.coin() ) { x.lineData.isStopLengthSpecified = true; x.lineData.endLength = tenths( t ); }
                            if( t.chance( 1, 3 ) ) { x.printData.isColorSpecified = true; x.printData.color = color( t ); }
                            x.positionData.placement = d.placement; // one attribute holds both
                            d.bracketStarts.push_back( x );
                        }
                        else
                        {
                            SpannerStop x;
                            x.tickTimePosition = tick;
                            if( t.coin() ) x.numberLevel = t.range( 1, 6 );
                            if( t.coin() ) x.positionData = position( t, false, false );
                            x.positionData.placement = d.placement; // one attribute holds both
                            d.bracketStops.push_back( x );
                        }
                        break;
                    }
                    case 7:
                    {
                        RehearsalData w;
                        w.text = txt();
                        if( t.coin() ) w.positionData = position( t, false, false );
                        if( t.chance( 1, 3 ) ) w.positionData.horizontalAlignmnet = gen::randomEnum<HorizontalAlignment>( t );
                        if( t.coin() ) w.fontData = font( t, true );
                        d.rehearsals.push_back( w );
                        break;
                    }
                    case 8:
                    {
                        SegnoData w;
                        if( t.coin() ) w.positionData = position( t, false, true );
                        if( t.chance( 1, 3 ) ) { w.isColorSpecified = true; w.colorData = color( t ); }
                        d.segnos.push_back( w );
                        break;
                    }
                    case 9:
                    {
                        CodaData w;
                        if( t.coin() ) w.positionData = position( t, false, true );
                        if( t.chance( 1, 3 ) ) { w.isColorSpecified = true; w.colorData = color( t ); }
                        d.codas.push_back( w );
                        break;
                    }
                    case 0:
                    {
                        MarkData m = mark( (MarkType)t.range( (int)MarkType::p, (int)MarkType::fz ), tick );
                        m.name = dynamicName( m.markType );
                        if( t.coin() ) m.positionData = position( t, true, false );
                        if( t.coin() )
                        {
                            m.printData.fontData = font( t, false );
                            if( t.coin() ) { m.printData.isColorSpecified = true; m.printData.color = color( t ); }
                        }
                        d.marks.push_back( m );
                        break;
                    }
                    case 1:
                    {
                        MarkData m = mark( t.coin() ? MarkType::pedal : MarkType::damp, tick );
                        if( t.coin() ) m.positionData = position( t, false, false );
                        if( t.chance( 1, 3 ) ) m.positionData.horizontalAlignmnet = gen::randomEnum<HorizontalAlignment>( t );
                        m.positionData.placement = d.placement; // one attribute holds both
                        d.marks.push_back( m );
                        break;
                    }
                    case 2:
                    {
                        WedgeStart w;
                        if( t.coin() ) w.numberLevel = t.range( 1, 6 );
                        w.wedgeType = t.coin() ? WedgeType::crescendo : WedgeType::diminuendo;
                        if( t.coin() ) { w.isSpreadSpecified = true; w.spread = positiveTenths( t ); }
                        if( t.coin() ) w.positionData = position( t, false, false );
                        if( t.coin() ) w.lineData = line( t, true );
                        d.wedgeStarts.push_back( w );
                        break;
                    }
                    case 3:
                    {
                        WedgeStop w;
                        if( t.coin() ) w.numberLevel = t.range( 1, 6 );
                        if( t.coin() ) { w.isSpreadSpecified = true; w.spread = positiveTenths( t ); }
                        if( t.coin() ) w.positionData = position( t, false, false );
                        d.wedgeStops.push_back( w );
                        break;
                    }
                    case 4:
                    {
                        if( t.coin() )
                        {
                            OttavaStart x;
                            x.ottavaType = (OttavaType)t.range( (int)OttavaType::o8va, (int)OttavaType::o15mb );
                            if( t.coin() ) x.spannerStart.numberLevel = t.range( 1, 6 );
                            if( t.coin() ) x.spannerStart.lineData = line( t, true );
                            x.spannerStart.lineData.lineType = LineType::unspecified; // octave shifts have no line type
                            if( t.coin() ) x.spannerStart.positionData = position( t, false, false );
                            if( t.chance( 1, 3 ) ) x.spannerStart.printData.fontData = font( t, false );
                            x.spannerStart.tickTimePosition = tick;
                            d.ottavaStarts.push_back( x );
                        }
                        else
                        {
                            SpannerStop x;
                            x.tickTimePosition = tick;
                            if( t.coin() ) x.numberLevel = t.range( 1, 6 );
                            if( t.coin() ) x.positionData = position( t, false, false );
                            d.ottavaStops.push_back( x );
                        }
                        break;
                    }
                    case 5:
                    {
                        TempoData x;
                        x.tempoType = TempoType::beatsPerMinute;
                        x.beatsPerMinute.durationName = durationName();
                        x.beatsPerMinute.dots = t.range( 0, 3 );
                        if( t.chance( 1, 4 ) )
                        {
                            x.tempoType = TempoType::tempoText;
                            x.tempoText.tempoText = t.pick<const char*>( { "ca. 120", "x", "60-66", "Allegro", "fast & loud", "<80" } );
                        }
                        else x.beatsPerMinute.beatsPerMinute = t.range( 1, 400 );
                        d.tempos.push_back( x );
                        break;
                    }
                    default:
                    {
                        WordsData w;
                        w.text = txt();
                        if( t.coin() ) w.positionData = position( t, false, false );
                        if( t.chance( 1, 3 ) ) w.positionData.horizontalAlignmnet = gen::randomEnum<HorizontalAlignment>( t );
                        if( t.coin() ) w.fontData = font( t, true );
                        d.words.push_back( w );
                        break;
                    }
                    }
                }
                return d;
            }
            void chords( DirectionData& d )
            {
                PositionData place; // a harmony has one position for all its chords
                bool first = true;
                while( first || t.chance( 1, 4 ) )
                {
                    ChordData c;
                    c.root = (Step)t.below( 7 );
                    if( t.coin() ) c.rootAlter = t.range( -2, 2 );
                    c.chordKind = (ChordKind)t.range( (int)ChordKind::major, (int)ChordKind::none );
                    if( t.chance( 1, 3 ) ) c.text = txt();
                    c.useSymbols = gen::randomEnum<Bool>( t );
                    if( t.chance( 1, 3 ) )
                    {
                        c.bass = (Step)t.below( 7 );
                        if( t.coin() ) c.bassAlter = t.range( -2, 2 );
                    }
                    while( c.extensions.size() < 3 && t.more( 0.7 ) )
                    {
                        Extension e;
                        e.extensionType = gen::randomEnum<ExtensionType>( t );
                        e.extensionAlter = gen::randomEnum<ExtensionAlter>( t );
                        e.extensionNumber = gen::randomEnum<ExtensionNumber>( t );
                        e.printObject = gen::randomEnum<Bool>( t );
                        c.extensions.push_back( e );
                    }
                    if( first && t.coin() ) place = position( t, false, false );
                    c.positionData = place;
                    c.positionData.placement = d.placement;
                    d.chords.push_back( c );
                    first = false;
                }
            }

            // ---- measures
            KeyData key( int tick, int staves )
            {
                KeyData k;
                k.tickTimePosition = tick;
                if( staves > 1 && t.coin() ) k.staffIndex = t.range( 0, staves - 1 );
                if( t.chance( 1, 5 ) )
                {
                    for( int n = t.range( 1, 4 ); n > 0; --n )
                    {
                        KeyComponent c;
                        c.step = (Step)t.below( 7 );
                        c.alter = t.range( -2, 2 );
                        c.cents = t.chance( 1, 4 ) ? t.range( 0, 49 ) : 0;
                        if( c.alter < 0 || ( c.alter == 0 && t.coin() ) ) c.cents = -c.cents; // both have the sign of their sum
                        c.accidental = gen::randomEnum<Accidental>( t );
                        k.nonTraditional.push_back( c );
                    }
                    return k;
                }
                k.fifths = t.range( -7, 7 );
                if( t.chance( 1, 3 ) ) k.cancel = t.range( -7, 7 );
                k.mode = t.pick( { KeyMode::unspecified, KeyMode::major, KeyMode::minor } );
                return k;
            }
            ClefData clef( int tick )
            {
                ClefData c;
                c.symbol = gen::randomEnum<ClefSymbol>( t );
                c.line = t.range( 1, 5 );
                if( t.chance( 1, 3 ) ) c.octaveChange = t.range( -2, 2 );
                c.tickTimePosition = tick;
                c.location = tick == 0 ? ClefLocation::unspecified : ClefLocation::midMeasure;
                return c;
            }
            BarlineData barline( int tick, bool right )
            {
                BarlineData b;
                b.tickTimePosition = tick;
                b.location = right ? HorizontalAlignment::right : HorizontalAlignment::left;
                b.barlineType = (BarlineType)t.range( (int)BarlineType::none, (int)BarlineType::heavyHeavy );
                if( t.chance( 1, 3 ) )
                {
                    b.endingType = gen::randomEnum<EndingType>( t );
                    if( b.endingType != EndingType::none ) b.endingNumber = t.range( 1, 5 );
                }
                b.repeat = t.chance( 1, 3 );
                if( t.chance( 1, 6 ) ) b.barlineType = BarlineType::unspecified;
                return b;
            }

            void part( PartData& p, int index, const std::vector<TimeSignatureData>& times )
            {
                p.uniqueId = "P" + std::to_string( index + 1 );
                p.name = on( o.header ) ? txt() : "Part";
                if( on( o.header ) ) partFields( p, index );
                const int staves = t.chance( 1, 2 ) ? 1 : t.range( 1, o.maxStaves );
                for( int m = 0; m < numMeasures; ++m )
                {
                    MeasureData md;
                    md.timeSignature = times[(size_t)m];
                    const int length = std::max( 1, (int)( 4LL * s.ticksPerQuarter * md.timeSignature.beats / md.timeSignature.beatType ) );
                    if( on( o.measures / 2 ) ) md.number = t.pick<const char*>( { "X1", "12b", "100", "-3", "i" } );
                    if( on( o.measures / 2 ) ) md.implicit = gen::randomEnum<Bool>( t );
                    if( on( o.measures / 2 ) ) md.width = positiveTenths( t );
                    for( int n = on( o.measures ) ? t.range( 1, staves ) : 0; n > 0; --n ) md.keys.push_back( key( 0, staves ) );
                    if( on( o.measures ) ) md.barlines.push_back( barline( 0, false ) );
                    const bool rightBarline = on( o.measures );
                    if( on( o.measures / 3 ) ) md.multiMeasureRest = t.range( 1, 20 );
                    for( int k = 0; k < staves; ++k )
                    {
                        StaffData st;
                        if( on( o.measures ) ) st.clefs.push_back( clef( 0 ) );
                        const int voices = t.chance( 2, 3 ) ? 1 : t.range( 1, o.maxVoices );
                        std::set<int> starts;
                        for( int v = 0; v < voices; ++v )
                        {
                            st.voices[v] = voice( v, length );
                            for( auto& n : st.voices[v].notes )
                                if( v == 0 && n.tickTimePosition > 0 ) starts.insert( n.tickTimePosition );
                        }
                        int tick = 0;
                        while( on( o.directions ) && st.directions.size() < 4 )
                        {
                            tick += t.coin() ? 0 : t.range( 0, length - tick );
                            st.directions.push_back( direction( tick, k, staves ) );
                        }
                        // clefs and keys inside a measure stand where notes of the first voice start
                        for( int ct : starts )
                        {
                            if( on( o.measures / 2 ) ) st.clefs.push_back( clef( ct ) );
                            if( k == 0 && on( o.measures / 4 ) )
                                for( int n = t.range( 1, staves ); n > 0; --n ) md.keys.push_back( key( ct, staves ) );
                        }
                        // barlines inside a measure stand there too
                        if( k == 0 )
                            for( int bt : starts )
                                if( on( o.measures / 4 ) )
                                {
                                    md.barlines.push_back( barline( bt, false ) );
                                    md.barlines.back().location = HorizontalAlignment::center;
                                }
                        md.staves.push_back( std::move( st ) );
                    }
                    if( rightBarline ) md.barlines.push_back( barline( TICK_TIME_INFINITY, true ) );
                    p.measures.push_back( std::move( md ) );
                }
            }
            void partFields( PartData& p, int index )
            {
                if( t.coin() ) p.abbreviation = txt();
                if( t.coin() ) p.displayName = txt();
                if( t.coin() ) p.displayAbbreviation = txt();
                if( t.chance( 1, 3 ) )
                {
                    p.transposition = TransposeData{ t.range( -24, 24 ), t.range( -14, 14 ) };
                    if( !p.transposition->isUsed() ) p.transposition.reset(); // nothing to write
                }
                if( t.coin() )
                {
                    auto& i = p.instrumentData;
                    i.uniqueId = "I" + std::to_string( index + 1 );
                    i.name = txt();
                    if( t.coin() ) i.abbreviation = txt();
                    if( t.coin() ) i.soundID = (SoundID)t.range( (int)SoundID::brassAlphorn, (int)SoundID::woodWoodBlock );
                    i.soloOrEnsemble = gen::randomEnum<SoloOrEnsemble>( t );
                    auto& m = i.midiData;
                    if( t.coin() )
                    {
                        if( t.coin() ) m.virtualLibrary = txt();
                        if( t.coin() ) m.virtualName = txt();
                        if( t.coin() ) m.device = txt();
                        if( t.coin() ) m.name = txt();
                        if( t.coin() ) m.bank = t.range( 1, 16384 );
                        if( t.coin() ) m.channel = t.range( 1, 16 );
                        if( t.coin() ) m.program = t.range( 1, 128 );
                        if( t.coin() ) m.unpitched = t.range( 1, 128 );
                        if( t.coin() ) { m.isVolumeSpecified = true; m.volume = t.range( 0, 1000 ) / 10.0L; }
                        if( t.coin() ) { m.isPanSpecified = true; m.pan = t.range( -180, 180 ); }
                        if( t.coin() ) { m.isElevationSpecified = true; m.elevation = t.range( -180, 180 ); }
                    }
                }
            }

            // ---- header
            LayoutData layout()
            {
                LayoutData l;
                if( t.coin() ) l.system.newSystem = gen::randomEnum<Bool>( t );
                if( t.coin() )
                {
                    auto& y = l.system.layout;
                    if( t.coin() ) y.margins = LeftRight{ tenths( t ), tenths( t ) };
                    if( t.coin() ) y.systemDistance = positiveTenths( t );
                    if( t.coin() ) y.topSystemDistance = positiveTenths( t );
                }
                if( t.coin() ) l.page.newPage = gen::randomEnum<Bool>( t );
                if( t.chance( 1, 3 ) ) l.page.pageLayoutData = pageLayout();
                if( t.chance( 1, 3 ) ) l.page.pageNumber = t.pick<const char*>( { "1", "iv", "12", "A-3" } );
                return l;
            }
            PageLayoutData pageLayout()
            {
                PageLayoutData p;
                if( t.chance( 1, 3 ) ) return p;
                // the size is mandatory in a page layout element of this library, and margins are clamped at 0
                p.size = SizeData{ positiveTenths( t ), positiveTenths( t ) };
                auto m = [&] { return MarginsData{ positiveTenths( t ), positiveTenths( t ), positiveTenths( t ), positiveTenths( t ) }; };
                if( t.coin() ) p.margins.odd = m();
                if( t.coin() ) p.margins.even = t.chance( 1, 4 ) ? p.margins.odd : std::optional<MarginsData>{ m() };
                return p;
            }
            void header()
            {
                s.musicXmlVersion = t.chance( 1, 4 ) ? MusicXmlVersion::ThreePointZero : s.musicXmlVersion;
                if( on( o.header ) ) s.workTitle = txt();
                if( on( o.header ) ) s.workNumber = txt();
                if( on( o.header ) ) s.movementTitle = txt();
                if( on( o.header ) ) s.movementNumber = txt();
                if( on( o.header ) ) s.composer = txt();
                if( on( o.header ) ) s.lyricist = txt();
                if( on( o.header ) ) s.arranger = txt();
                if( on( o.header ) ) s.publisher = txt();
                if( on( o.header ) ) s.copyright = txt();
                auto& e = s.encoding;
                if( on( o.header ) ) e.encoder = txt();
                if( on( o.header ) ) { e.encodingDate.year = t.range( 1900, 2100 ); e.encodingDate.month = t.range( 1, 12 ); e.encodingDate.day = t.range( 1, 28 ); }
                if( on( o.header ) ) e.encodingDescription = txt();
                if( on( o.header ) )
                    for( int k = t.range( 1, 3 ); k > 0; --k ) e.software.push_back( txt() );
                if( on( o.header ) )
                    for( int k = t.range( 1, 3 ); k > 0; --k )
                    {
                        SupportedItem i;
                        i.elementName = t.pick<const char*>( { "accidental", "beam", "print" } );
                        if( t.coin() ) i.attributeName = t.pick<const char*>( { "new-page", "x" } );
                        if( t.coin() ) i.specificValue = t.pick<const char*>( { "yes", "v 1" } );
                        i.isSupported = t.coin();
                        e.supportedItems.push_back( i );
                    }
                if( on( o.header ) )
                    for( int k = t.range( 1, 3 ); k > 0; --k ) e.miscelaneousFields.emplace_back( word( t ), txt() );
                if( on( o.header ) )
                    for( int k = t.range( 1, 3 ); k > 0; --k )
                    {
                        PageTextData x;
                        x.text = txt();
                        x.pageNumber = t.range( 1, 4 );
                        if( t.coin() ) x.positionData = position( t, false, true );
                        if( t.coin() ) x.fontData = font( t, true );
                        if( t.coin() ) x.description = t.pick<const char*>( { "title", "page number", "rights" } );
                        s.pageTextItems.push_back( x );
                    }
                auto& d = s.defaults;
                if( on( o.header ) ) { d.scalingMillimeters = t.range( 1, 4000 ) / 100.0L; d.scalingTenths = t.range( 1, 100 ); }
                if( on( o.header ) ) d.pageLayout = pageLayout();
                if( on( o.header ) )
                {
                    auto& y = d.systemLayout;
                    if( t.coin() ) y.margins = LeftRight{ tenths( t ), tenths( t ) };
                    if( t.coin() ) y.systemDistance = positiveTenths( t );
                    if( t.coin() ) y.topSystemDistance = positiveTenths( t );
                    if( t.coin() ) y.staffDistance = positiveTenths( t );
                }
                if( on( o.header ) )
                {
                    auto several = [&]( AppearanceType a, std::vector<const char*> names )
                    {
                        for( int k = t.range( 0, 2 ); k > 0; --k )
                        {
                            AppearanceData x;
                            x.appearanceType = a;
                            x.appearanceSubType = names[t.below( (uint32_t)names.size() )];
                            x.value = a == AppearanceType::NoteSize ? positiveTenths( t ) : tenths( t );
                            d.appearance.push_back( x );
                        }
                    };
                    several( AppearanceType::LineWidth, { "beam", "stem", "light barline" } );
                    several( AppearanceType::NoteSize, { "cue", "grace", "large" } );
                    several( AppearanceType::Distance, { "hyphen", "beam" } );
                    several( AppearanceType::OtherAppearance, { "anything", "x y" } );
                }
            }
            void groups()
            {
                int number = 1;
                while( on( o.header ) && number < 4 )
                {
                    PartGroupData g;
                    g.number = number++;
                    g.firstPartIndex = t.range( 0, (int)s.parts.size() - 1 );
                    g.lastPartIndex = t.range( g.firstPartIndex, (int)s.parts.size() - 1 );
                    if( t.coin() ) g.name = txt();
                    if( t.coin() ) g.abbreviation = txt();
                    g.bracketType = gen::randomEnum<BracketType>( t );
                    s.partGroups.push_back( g );
                }
                // the reader's order
                std::stable_sort( s.partGroups.begin(), s.partGroups.end(), []( const PartGroupData& a, const PartGroupData& b ) { return a.firstPartIndex < b.firstPartIndex; } );
            }

            void run()
            {
                s.ticksPerQuarter = t.pick<int>( { 4, 1, 2, 3, 6, 12, 24, 48, 120, 240, 420, 480, 960, t.range( 1, 1000 ) } );
                numMeasures = t.range( 1, o.maxMeasures );
                header();
                std::vector<TimeSignatureData> times;
                TimeSignatureData ts;
                for( int m = 0; m < numMeasures; ++m )
                {
                    ts.isImplicit = true; // all else is carried from the measure before
                    if( m == 0 ? t.coin() : on( o.measures ) )
                    {
                        ts.isImplicit = false;
                        ts.beats = t.range( 1, 9 );
                        ts.beatType = t.pick<int>( { 4, 2, 8, 16, 1 } );
                        ts.symbol = gen::randomEnum<TimeSignatureSymbol>( t );
                        ts.display = gen::randomEnum<Bool>( t );
                    }
                    times.push_back( ts );
                }
                const int parts = t.chance( 1, 2 ) ? 1 : t.range( 1, o.maxParts );
                for( int p = 0; p < parts; ++p )
                {
                    PartData pd;
                    part( pd, p, times );
                    s.parts.push_back( std::move( pd ) );
                }
                groups();
                for( int m = 0; m < numMeasures; ++m )
                    if( on( o.measures ) )
                    {
                        LayoutData l = layout();
                        if( l.isUsed() ) s.layout[m] = l;
                    }
            }
        };
    }

    ScoreData generate( Tape& t, const Opts& o )
    {
        Gen g{ t, o, {} };
        g.run();
        return g.s;
    }
}
