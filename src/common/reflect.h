// Field-by-field view of the score data structures: every comparison, copy of the structure for
// mutation and printed form used by the api checks goes through this list, never through the
// library's own equality.
#pragma once
#include "mx/api/DocumentManager.h"
#include "mx/api/LyricData.h"
#include "mx/api/MeasureLocation.h"
#include "mx/api/ScoreData.h"
#include <cmath>
#include <map>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

namespace refl
{
    using namespace mx::api;
#define R( T ) template <class V, class X, std::enable_if_t<std::is_same<std::remove_const_t<X>, T>::value, int> = 0> void fields( V& v, X& x )
#define F( n ) v( #n, x.n )
    R( AppearanceData ) { F( appearanceType ); F( appearanceSubType ); F( value ); }
    R( BarlineData ) { F( tickTimePosition ); F( barlineType ); F( endingType ); F( endingNumber ); F( repeat ); F( location ); }
    R( Extension ) { F( extensionType ); F( extensionAlter ); F( extensionNumber ); F( printObject ); }
    R( ColorData ) { F( red ); F( green ); F( blue ); F( isAlphaSpecified ); F( alpha ); }
    R( MiscData ) { F( name ); F( data ); }
    R( PositionData ) { F( defaultX ); F( isDefaultXSpecified ); F( defaultY ); F( isDefaultYSpecified ); F( relativeX ); F( isRelativeXSpecified ); F( relativeY ); F( isRelativeYSpecified ); F( placement ); F( verticalAlignment ); F( horizontalAlignmnet ); }
    R( ChordData ) { F( root ); F( rootAlter ); F( chordKind ); F( text ); F( useSymbols ); F( bass ); F( bassAlter ); F( extensions ); F( miscData ); F( positionData ); }
    R( ClefData ) { F( symbol ); F( line ); F( octaveChange ); F( tickTimePosition ); F( location ); }
    R( CodaData ) { F( positionData ); F( isColorSpecified ); F( colorData ); }
    R( SegnoData ) { F( positionData ); F( isColorSpecified ); F( colorData ); }
    R( LineData ) { F( lineType ); F( lineHook ); F( isStopLengthSpecified ); F( endLength ); F( isDashLengthSpecified ); F( dashLength ); F( isSpaceLengthSpecified ); F( spaceLength ); }
    R( CurvePoints ) { F( positionData ); F( isBezierXSpecified ); F( bezierX ); F( isBezierYSpecified ); F( bezierY ); F( isBezierOffsetSpecified ); F( bezierOffset ); }
    R( CurveStart ) { F( curveType ); F( numberLevel ); F( curvePoints ); F( curveOrientation ); F( placement ); F( lineData ); F( isColorSpecified ); F( colorData ); }
    R( CurveContinue ) { F( curveType ); F( numberLevel ); F( curvePoints ); F( isBezierX2Specified ); F( bezierX2 ); F( isBezierY2Specified ); F( bezierY2 ); F( isBezierOffset2Specified ); F( bezierOffset2 ); }
    R( CurveStop ) { F( curveType ); F( numberLevel ); F( curvePoints ); }
    R( LeftRight ) { F( left ); F( right ); }
    R( SizeData ) { F( height ); F( width ); }
    R( MarginsData ) { F( left ); F( right ); F( top ); F( bottom ); }
    R( PageMarginsData ) { F( odd ); F( even ); }
    R( PageLayoutData ) { F( size ); F( margins ); }
    R( SystemLayoutData ) { F( margins ); F( systemDistance ); F( topSystemDistance ); F( staffDistance ); }
    R( SystemData ) { F( newSystem ); F( layout ); }
    R( PageData ) { F( newPage ); F( pageLayoutData ); F( pageNumber ); }
    R( LayoutData ) { F( system ); F( page ); }
    R( DefaultsData ) { F( scalingMillimeters ); F( scalingTenths ); F( pageLayout ); F( systemLayout ); F( appearance ); F( measureNumbering ); }
    R( FontData ) { F( sizeType ); F( sizePoint ); F( sizeCss ); F( style ); F( weight ); F( fontFamily ); F( underline ); F( overline ); F( lineThrough ); }
    R( PrintData ) { F( printObject ); F( fontData ); F( isColorSpecified ); F( color ); }
    R( BeatsPerMinute ) { F( durationName ); F( dots ); F( beatsPerMinute ); }
    R( MetricModulation ) { F( leftDurationName ); F( leftDots ); F( rightDurationName ); F( rightDots ); F( playbackBeatsPerMinute ); }
    R( TempoText ) { F( tempoText ); F( playbackBeatsPerMinute ); }
    R( TempoData ) { F( tickTime ); F( isParenthetical ); F( printData ); F( positionData ); F( tempoType ); F( beatsPerMinute ); F( metricModulation ); F( tempoText ); }
    R( MarkData ) { F( markType ); F( name ); F( tickTimePosition ); F( printData ); F( positionData ); }
    R( WedgeStart ) { F( numberLevel ); F( wedgeType ); F( isSpreadSpecified ); F( spread ); F( lineData ); F( positionData ); F( colorData ); }
    R( WedgeStop ) { F( numberLevel ); F( positionData ); F( isSpreadSpecified ); F( spread ); }
    R( SpannerStart ) { F( numberLevel ); F( tickTimePosition ); F( positionData ); F( printData ); F( lineData ); }
    R( SpannerStop ) { F( numberLevel ); F( tickTimePosition ); F( positionData ); }
    R( OttavaStart ) { F( spannerStart ); F( ottavaType ); }
    R( WordsData ) { F( text ); F( positionData ); F( fontData ); F( isColorSpecified ); F( colorData ); }
    R( RehearsalData ) { F( text ); F( positionData ); F( isColorSpecified ); F( colorData ); F( fontData ); }
    R( DirectionData ) { F( tickTimePosition ); F( placement ); F( voice ); F( isStaffValueSpecified ); F( tempos ); F( marks ); F( wedgeStarts ); F( wedgeStops ); F( ottavaStarts ); F( ottavaStops ); F( bracketStarts ); F( bracketStops ); F( words ); F( chords ); F( segnos ); F( codas ); F( rehearsals ); }
    R( DurationData ) { F( durationName ); F( durationDots ); F( durationTimeTicks ); F( isTied ); F( timeModificationActualNotes ); F( timeModificationNormalNotes ); F( timeModificationNormalType ); F( timeModificationNormalTypeDots ); }
    R( SupportedItem ) { F( elementName ); F( attributeName ); F( specificValue ); F( isSupported ); }
    R( MiscellaneousField ) { F( key ); F( value ); }
    R( EncodingDate ) { F( year ); F( month ); F( day ); }
    R( EncodingData ) { F( encodingDate ); F( encoder ); F( encodingDescription ); F( software ); F( supportedItems ); F( miscelaneousFields ); }
    R( KeyComponent ) { F( step ); F( alter ); F( cents ); F( accidental ); }
    R( KeyData ) { F( fifths ); F( cancel ); F( mode ); F( tickTimePosition ); F( staffIndex ); F( nonTraditional ); }
    R( LyricData ) { F( text ); }
    R( MeasureLocation ) { F( partIndex ); F( staffIndex ); F( measureIndex ); }
    R( TupletStart ) { F( numberLevel ); F( positionData ); F( actualNumber ); F( actualDurationName ); F( actualDots ); F( normalNumber ); F( normalDurationName ); F( normalDots ); F( showActualNumber ); F( showNormalNumber ); F( bracket ); }
    R( TupletStop ) { F( numberLevel ); F( positionData ); }
    R( NoteAttachmentData ) { F( marks ); F( curveStarts ); F( curveContinuations ); F( curveStops ); F( tupletStarts ); F( tupletStops ); }
    R( PitchData ) { F( step ); F( alter ); F( cents ); F( accidental ); F( isAccidentalParenthetical ); F( isAccidentalCautionary ); F( isAccidentalEditorial ); F( isAccidentalBracketed ); F( octave ); }
    R( NoteData ) { F( isRest ); F( isMeasureRest ); F( isUnpitched ); F( isDisplayStepOctaveSpecified ); F( isChord ); F( isTieStart ); F( isTieStop ); F( noteType ); F( notehead ); F( pitchData ); F( userRequestedVoiceNumber ); F( stem ); F( tickTimePosition ); F( durationData ); F( beams ); F( positionData ); F( printData ); F( noteAttachmentData ); F( miscData ); }
    R( VoiceData ) { F( notes ); }
    R( StaffData ) { F( clefs ); F( keys ); F( directions ); F( voices ); }
    R( TimeSignatureData ) { F( symbol ); F( beats ); F( beatType ); F( isImplicit ); F( display ); }
    R( TransposeData ) { F( chromatic ); F( diatonic ); }
    R( MeasureData ) { F( staves ); F( timeSignature ); F( number ); F( measureNumbering ); F( multiMeasureRest ); F( implicit ); F( nonControlling ); F( width ); F( keys ); F( barlines ); }
    R( PageTextData ) { F( text ); F( pageNumber ); F( positionData ); F( fontData ); F( description ); }
    R( MidiData ) { F( virtualLibrary ); F( virtualName ); F( device ); F( name ); F( bank ); F( channel ); F( program ); F( unpitched ); F( volume ); F( isVolumeSpecified ); F( pan ); F( isPanSpecified ); F( elevation ); F( isElevationSpecified ); }
    R( InstrumentData ) { F( uniqueId ); F( name ); F( abbreviation ); F( soundID ); F( soloOrEnsemble ); F( midiData ); }
    R( PartData ) { F( uniqueId ); F( name ); F( abbreviation ); F( displayName ); F( displayNamePrintData ); F( displayNamePositionData ); F( displayAbbreviation ); F( displayAbbreviationPrintData ); F( displayAbbreviationPositionData ); F( instrumentData ); F( transposition ); F( measures ); }
    R( PartGroupData ) { F( firstPartIndex ); F( lastPartIndex ); F( name ); F( displayName ); F( abbreviation ); F( displayAbbreviation ); F( bracketType ); F( number ); }
    R( ScoreData ) { F( musicXmlVersion ); F( musicXmlType ); F( workTitle ); F( workNumber ); F( movementTitle ); F( movementNumber ); F( composer ); F( lyricist ); F( arranger ); F( publisher ); F( copyright ); F( encoding ); F( pageTextItems ); F( defaults ); F( parts ); F( partGroups ); F( ticksPerQuarter ); F( layout ); }
#undef R
#undef F
    template <class T> struct IsVec : std::false_type {};
    template <class T> struct IsVec<std::vector<T>> : std::true_type {};
    template <class T> struct IsMap : std::false_type {};
    template <class T> struct IsMap<std::map<int, T>> : std::true_type {};
    template <class T> struct IsOpt : std::false_type {};
    template <class T> struct IsOpt<std::optional<T>> : std::true_type {};
    template <class T> struct IsLeaf : std::integral_constant<bool, std::is_arithmetic<T>::value || std::is_enum<T>::value || std::is_same<T, std::string>::value> {};

    std::string number( long double d );

    // leaf visitor: f( path, leaf& ) with full path; containers report their size as "path#"
    template <class Fn> struct Walk
    {
        Fn& f;
        std::string path;
        template <class X> void operator()( const char* n, X& x )
        {
            const size_t keep = path.size();
            if( keep ) path += '.';
            path += n;
            any( x );
            path.resize( keep );
        }
        template <class X> void any( X& x )
        {
            using T = std::remove_const_t<X>;
            if constexpr( IsLeaf<T>::value ) f.leaf( path, x );
            else if constexpr( IsVec<T>::value )
            {
                f.size( path, x );
                for( size_t i = 0; i < x.size(); ++i ) at( "[" + std::to_string( i ) + "]", x[i] );
            }
            else if constexpr( IsMap<T>::value )
            {
                f.size( path, x );
                for( auto& p : x ) at( "{" + std::to_string( p.first ) + "}", p.second );
            }
            else if constexpr( IsOpt<T>::value )
            {
                f.size( path, x );
                if( x ) at( "?", *x );
            }
            else fields( *this, x );
        }
        template <class X> void at( const std::string& s, X& x )
        {
            const size_t keep = path.size();
            path += s;
            any( x );
            path.resize( keep );
        }
    };
    template <class Fn, class X> void walk( Fn& f, X& x, const std::string& root = "" )
    {
        Walk<Fn> w{ f, root };
        w.any( x );
    }

    template <class T> std::string show( const T& x )
    {
        if constexpr( std::is_same<T, std::string>::value ) return "\"" + x + "\"";
        else if constexpr( std::is_enum<T>::value ) return "#" + std::to_string( (long long)x );
        else if constexpr( std::is_same<T, bool>::value ) return x ? "true" : "false";
        else if constexpr( std::is_floating_point<T>::value ) return number( (long double)x );
        else return std::to_string( x );
    }
    template <class T> size_t sizeOf( const T& x )
    {
        if constexpr( IsOpt<T>::value ) return x ? 1 : 0;
        else return x.size();
    }
    using Flat = std::vector<std::pair<std::string, std::string>>;
    struct Flatten
    {
        Flat out;
        template <class X> void leaf( const std::string& p, X& x ) { out.emplace_back( p, show<std::remove_const_t<X>>( x ) ); }
        template <class X> void size( const std::string& p, X& x )
        {
            std::string s = std::to_string( sizeOf( x ) );
            if constexpr( IsMap<std::remove_const_t<X>>::value ) for( auto& e : x ) s += " " + std::to_string( e.first );
            out.emplace_back( p + "#", s );
        }
    };
    template <class X> Flat flatten( const X& x )
    {
        Flatten f;
        walk( f, x );
        return f.out;
    }
    struct Difference
    {
        std::string path, left, right;
        std::string field() const; // path without indices
    };
    // all differing leaves; paths below containers of different size or keys are not reported
    std::vector<Difference> diff( const Flat& a, const Flat& b, size_t max = 50 );
    template <class X> std::vector<Difference> differences( const X& a, const X& b ) { return diff( flatten( a ), flatten( b ) ); }
    std::string fieldOf( const std::string& path );
    std::string text( const Flat& f, const Flat* defaults = nullptr );
    // only the fields that differ from a default constructed value
    std::string showScore( const ScoreData& s );
}
