// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/AccordionMiddle.h"
#include "mx/core/elements/ArrowDirection.h"
#include "mx/core/elements/ArrowGroup.h"
#include "mx/core/elements/ArrowStyle.h"
#include "mx/core/elements/Barre.h"
#include "mx/core/elements/BarreAttributes.h"
#include "mx/core/elements/BeatUnit.h"
#include "mx/core/elements/BendAlter.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/Capo.h"
#include "mx/core/elements/Chromatic.h"
#include "mx/core/elements/Credit.h"
#include "mx/core/elements/CreditAttributes.h"
#include "mx/core/elements/CreditChoice.h"
#include "mx/core/elements/CreditType.h"
#include "mx/core/elements/Damp.h"
#include "mx/core/elements/DelayedInvertedTurn.h"
#include "mx/core/elements/DelayedInvertedTurnAttributes.h"
#include "mx/core/elements/Diatonic.h"
#include "mx/core/elements/DisplayStep.h"
#include "mx/core/elements/Double.h"
#include "mx/core/elements/Effect.h"
#include "mx/core/elements/EmptyFontAttributes.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/EmptyPrintObjectStyleAlignAttributes.h"
#include "mx/core/elements/EncodingDate.h"
#include "mx/core/elements/Falloff.h"
#include "mx/core/elements/Feature.h"
#include "mx/core/elements/Fingernails.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/FretAttributes.h"
#include "mx/core/elements/Group.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/GroupingAttributes.h"
#include "mx/core/elements/HarpPedals.h"
#include "mx/core/elements/HarpPedalsAttributes.h"
#include "mx/core/elements/Image.h"
#include "mx/core/elements/ImageAttributes.h"
#include "mx/core/elements/InvertedMordent.h"
#include "mx/core/elements/InvertedMordentAttributes.h"
#include "mx/core/elements/KeyStep.h"
#include "mx/core/elements/LeftMargin.h"
#include "mx/core/elements/LineWidth.h"
#include "mx/core/elements/LineWidthAttributes.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/MeasureAttributes.h"
#include "mx/core/elements/MeasureNumbering.h"
#include "mx/core/elements/MeasureNumberingAttributes.h"
#include "mx/core/elements/MetronomeDot.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiDeviceAttributes.h"
#include "mx/core/elements/Millimeters.h"
#include "mx/core/elements/MiscellaneousField.h"
#include "mx/core/elements/MiscellaneousFieldAttributes.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/MusicFont.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/Notehead.h"
#include "mx/core/elements/NoteheadAttributes.h"
#include "mx/core/elements/OctaveChange.h"
#include "mx/core/elements/Opus.h"
#include "mx/core/elements/OpusAttributes.h"
#include "mx/core/elements/OtherPercussion.h"
#include "mx/core/elements/PartAbbreviation.h"
#include "mx/core/elements/PartAbbreviationAttributes.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/PedalTuning.h"
#include "mx/core/elements/Percussion.h"
#include "mx/core/elements/PercussionAttributes.h"
#include "mx/core/elements/PercussionChoice.h"
#include "mx/core/elements/Prefix.h"
#include "mx/core/elements/PrefixAttributes.h"
#include "mx/core/elements/Repeat.h"
#include "mx/core/elements/RepeatAttributes.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/Scaling.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/ScoreTimewiseAttributes.h"
#include "mx/core/elements/SlashType.h"
#include "mx/core/elements/SoundingPitch.h"
#include "mx/core/elements/StaffDistance.h"
#include "mx/core/elements/StaffLayout.h"
#include "mx/core/elements/StaffLayoutAttributes.h"
#include "mx/core/elements/Stick.h"
#include "mx/core/elements/StickAttributes.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/StrongAccent.h"
#include "mx/core/elements/StrongAccentAttributes.h"
#include "mx/core/elements/SystemMargins.h"
#include "mx/core/elements/Tenths.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TieAttributes.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/TransposeAttributes.h"
#include "mx/core/elements/TupletActual.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/Unstress.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/WavyLineAttributes.h"
#include "mx/core/elements/WorkTitle.h"
using namespace mx::core;
namespace c02
{
void table7( std::vector<Class>& v )
{
CLASS( AccordionMiddle ) END
CLASS( ArrowGroup ) ONE( ArrowGroup, ArrowDirection, ArrowDirection ) OPT( ArrowGroup, ArrowStyle, ArrowStyle ) END
CLASS( Barre ) ATTRIBUTES( Barre, BarreAttributes ) ALWAYS( Type ) END
CLASS( BeatUnit ) END
CLASS( BendAlter ) END
CLASS( Capo ) END
CLASS( Credit ) ONE( Credit, CreditChoice, CreditChoice ) SET( Credit, CreditType, CreditType, 0, -1 ) AT( Credit, CreditType ) SET( Credit, Link, Link, 0, -1 ) AT( Credit, Link ) SET( Credit, Bookmark, Bookmark, 0, -1 ) AT( Credit, Bookmark ) ATTRIBUTES( Credit, CreditAttributes ) FLAG( CreditAttributes, Page ) END
CLASS( Damp ) ATTRIBUTES( Damp, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( DelayedInvertedTurn ) ATTRIBUTES( DelayedInvertedTurn, DelayedInvertedTurnAttributes ) FLAG( DelayedInvertedTurnAttributes, DefaultX ) FLAG( DelayedInvertedTurnAttributes, DefaultY ) FLAG( DelayedInvertedTurnAttributes, RelativeX ) FLAG( DelayedInvertedTurnAttributes, RelativeY ) FLAG( DelayedInvertedTurnAttributes, FontFamily ) FLAG( DelayedInvertedTurnAttributes, FontStyle ) FLAG( DelayedInvertedTurnAttributes, FontSize ) FLAG( DelayedInvertedTurnAttributes, FontWeight ) FLAG( DelayedInvertedTurnAttributes, Placement ) FLAG( DelayedInvertedTurnAttributes, StartNote ) FLAG( DelayedInvertedTurnAttributes, TrillStep ) FLAG( DelayedInvertedTurnAttributes, TwoNoteTurn ) FLAG( DelayedInvertedTurnAttributes, Accelerate ) FLAG( DelayedInvertedTurnAttributes, Beats ) FLAG( DelayedInvertedTurnAttributes, SecondBeat ) FLAG( DelayedInvertedTurnAttributes, LastBeat ) FLAG( DelayedInvertedTurnAttributes, Slash ) END
CLASS( DisplayStep ) END
CLASS( Double ) END
CLASS( Effect ) END
CLASS( EncodingDate ) END
CLASS( Falloff ) ATTRIBUTES( Falloff, EmptyLineAttributes ) FLAG( EmptyLineAttributes, LineShape ) FLAG( EmptyLineAttributes, LineType ) FLAG( EmptyLineAttributes, DashLength ) FLAG( EmptyLineAttributes, SpaceLength ) FLAG( EmptyLineAttributes, DefaultX ) FLAG( EmptyLineAttributes, DefaultY ) FLAG( EmptyLineAttributes, RelativeX ) FLAG( EmptyLineAttributes, RelativeY ) FLAG( EmptyLineAttributes, FontFamily ) FLAG( EmptyLineAttributes, FontStyle ) FLAG( EmptyLineAttributes, FontSize ) FLAG( EmptyLineAttributes, FontWeight ) FLAG( EmptyLineAttributes, Placement ) END
CLASS( Fingernails ) ATTRIBUTES( Fingernails, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Fret ) ATTRIBUTES( Fret, FretAttributes ) FLAG( FretAttributes, FontFamily ) FLAG( FretAttributes, FontStyle ) FLAG( FretAttributes, FontSize ) FLAG( FretAttributes, FontWeight ) END
CLASS( Group ) END
CLASS( Grouping ) SET( Grouping, Feature, Feature, 0, -1 ) AT( Grouping, Feature ) ATTRIBUTES( Grouping, GroupingAttributes ) ALWAYS( Type ) FLAG( GroupingAttributes, Number ) FLAG( GroupingAttributes, MemberOf ) END
CLASS( HarpPedals ) SET( HarpPedals, PedalTuning, PedalTuning, 1, -1 ) AT( HarpPedals, PedalTuning ) ATTRIBUTES( HarpPedals, HarpPedalsAttributes ) FLAG( HarpPedalsAttributes, DefaultX ) FLAG( HarpPedalsAttributes, DefaultY ) FLAG( HarpPedalsAttributes, RelativeX ) FLAG( HarpPedalsAttributes, RelativeY ) FLAG( HarpPedalsAttributes, FontFamily ) FLAG( HarpPedalsAttributes, FontStyle ) FLAG( HarpPedalsAttributes, FontSize ) FLAG( HarpPedalsAttributes, FontWeight ) FLAG( HarpPedalsAttributes, Color ) FLAG( HarpPedalsAttributes, Halign ) FLAG( HarpPedalsAttributes, Valign ) END
CLASS( Image ) ATTRIBUTES( Image, ImageAttributes ) ALWAYS( Source ) ALWAYS( Type ) FLAG( ImageAttributes, DefaultX ) FLAG( ImageAttributes, DefaultY ) FLAG( ImageAttributes, RelativeX ) FLAG( ImageAttributes, RelativeY ) FLAG( ImageAttributes, Halign ) END
CLASS( InvertedMordent ) ATTRIBUTES( InvertedMordent, InvertedMordentAttributes ) FLAG( InvertedMordentAttributes, DefaultX ) FLAG( InvertedMordentAttributes, DefaultY ) FLAG( InvertedMordentAttributes, RelativeX ) FLAG( InvertedMordentAttributes, RelativeY ) FLAG( InvertedMordentAttributes, FontFamily ) FLAG( InvertedMordentAttributes, FontStyle ) FLAG( InvertedMordentAttributes, FontSize ) FLAG( InvertedMordentAttributes, FontWeight ) FLAG( InvertedMordentAttributes, Color ) FLAG( InvertedMordentAttributes, Placement ) FLAG( InvertedMordentAttributes, StartNote ) FLAG( InvertedMordentAttributes, TrillStep ) FLAG( InvertedMordentAttributes, TwoNoteTurn ) FLAG( InvertedMordentAttributes, Accelerate ) FLAG( InvertedMordentAttributes, Beats ) FLAG( InvertedMordentAttributes, SecondBeat ) FLAG( InvertedMordentAttributes, LastBeat ) FLAG( InvertedMordentAttributes, Long ) FLAG( InvertedMordentAttributes, Approach ) FLAG( InvertedMordentAttributes, Departure ) END
CLASS( KeyStep ) END
CLASS( LineWidth ) ATTRIBUTES( LineWidth, LineWidthAttributes ) ALWAYS( Type ) END
CLASS( MeasureNumbering ) ATTRIBUTES( MeasureNumbering, MeasureNumberingAttributes ) FLAG( MeasureNumberingAttributes, DefaultX ) FLAG( MeasureNumberingAttributes, DefaultY ) FLAG( MeasureNumberingAttributes, RelativeX ) FLAG( MeasureNumberingAttributes, RelativeY ) FLAG( MeasureNumberingAttributes, FontFamily ) FLAG( MeasureNumberingAttributes, FontStyle ) FLAG( MeasureNumberingAttributes, FontSize ) FLAG( MeasureNumberingAttributes, FontWeight ) FLAG( MeasureNumberingAttributes, Halign ) END
CLASS( MetronomeDot ) END
CLASS( MidiDevice ) ATTRIBUTES( MidiDevice, MidiDeviceAttributes ) FLAG( MidiDeviceAttributes, Port ) FLAG( MidiDeviceAttributes, Id ) END
CLASS( MiscellaneousField ) ATTRIBUTES( MiscellaneousField, MiscellaneousFieldAttributes ) ALWAYS( Name ) END
CLASS( MusicFont ) ATTRIBUTES( MusicFont, EmptyFontAttributes ) FLAG( EmptyFontAttributes, FontFamily ) FLAG( EmptyFontAttributes, FontStyle ) FLAG( EmptyFontAttributes, FontSize ) FLAG( EmptyFontAttributes, FontWeight ) END
CLASS( NormalType ) END
CLASS( Notehead ) ATTRIBUTES( Notehead, NoteheadAttributes ) FLAG( NoteheadAttributes, Filled ) FLAG( NoteheadAttributes, Parentheses ) FLAG( NoteheadAttributes, FontFamily ) FLAG( NoteheadAttributes, FontStyle ) FLAG( NoteheadAttributes, FontSize ) FLAG( NoteheadAttributes, FontWeight ) FLAG( NoteheadAttributes, Color ) END
CLASS( Opus ) ATTRIBUTES( Opus, OpusAttributes ) ALWAYS( Href ) FLAG( OpusAttributes, Type ) FLAG( OpusAttributes, Role ) FLAG( OpusAttributes, Title ) FLAG( OpusAttributes, Show ) FLAG( OpusAttributes, Actuate ) END
CLASS( OtherPercussion ) END
CLASS( PartAbbreviation ) ATTRIBUTES( PartAbbreviation, PartAbbreviationAttributes ) FLAG( PartAbbreviationAttributes, DefaultX ) FLAG( PartAbbreviationAttributes, DefaultY ) FLAG( PartAbbreviationAttributes, RelativeX ) FLAG( PartAbbreviationAttributes, RelativeY ) FLAG( PartAbbreviationAttributes, FontFamily ) FLAG( PartAbbreviationAttributes, FontStyle ) FLAG( PartAbbreviationAttributes, FontSize ) FLAG( PartAbbreviationAttributes, FontWeight ) FLAG( PartAbbreviationAttributes, PrintObject ) FLAG( PartAbbreviationAttributes, Justify ) END
CLASS( PartwiseMeasure ) ONE( PartwiseMeasure, MusicDataGroup, MusicDataGroup ) ATTRIBUTES( PartwiseMeasure, MeasureAttributes ) ALWAYS( Number ) FLAG( MeasureAttributes, Implicit ) FLAG( MeasureAttributes, NonControlling ) FLAG( MeasureAttributes, Width ) END
CLASS( Percussion ) ONE( Percussion, PercussionChoice, PercussionChoice ) ATTRIBUTES( Percussion, PercussionAttributes ) FLAG( PercussionAttributes, DefaultX ) FLAG( PercussionAttributes, DefaultY ) FLAG( PercussionAttributes, RelativeX ) FLAG( PercussionAttributes, RelativeY ) FLAG( PercussionAttributes, FontFamily ) FLAG( PercussionAttributes, FontStyle ) FLAG( PercussionAttributes, FontSize ) FLAG( PercussionAttributes, FontWeight ) FLAG( PercussionAttributes, Color ) FLAG( PercussionAttributes, Halign ) FLAG( PercussionAttributes, Valign ) FLAG( PercussionAttributes, Enclosure ) END
CLASS( Prefix ) ATTRIBUTES( Prefix, PrefixAttributes ) FLAG( PrefixAttributes, DefaultX ) FLAG( PrefixAttributes, DefaultY ) FLAG( PrefixAttributes, RelativeX ) FLAG( PrefixAttributes, RelativeY ) FLAG( PrefixAttributes, FontFamily ) FLAG( PrefixAttributes, FontStyle ) FLAG( PrefixAttributes, FontSize ) FLAG( PrefixAttributes, FontWeight ) END
CLASS( Repeat ) ATTRIBUTES( Repeat, RepeatAttributes ) ALWAYS( Direction ) FLAG( RepeatAttributes, Times ) FLAG( RepeatAttributes, Winged ) END
CLASS( Scaling ) ONE( Scaling, Millimeters, Millimeters ) ONE( Scaling, Tenths, Tenths ) END
CLASS( ScoreTimewise ) ONE( ScoreTimewise, ScoreHeaderGroup, ScoreHeaderGroup ) SET( ScoreTimewise, TimewiseMeasure, TimewiseMeasure, 1, -1 ) AT( ScoreTimewise, TimewiseMeasure ) ATTRIBUTES( ScoreTimewise, ScoreTimewiseAttributes ) FLAG( ScoreTimewiseAttributes, Version ) END
CLASS( SlashType ) END
CLASS( SoundingPitch ) END
CLASS( StaffLayout ) OPT( StaffLayout, StaffDistance, StaffDistance ) ATTRIBUTES( StaffLayout, StaffLayoutAttributes ) FLAG( StaffLayoutAttributes, Number ) END
CLASS( Stick ) ONE( Stick, StickType, StickType ) ONE( Stick, StickMaterial, StickMaterial ) ATTRIBUTES( Stick, StickAttributes ) FLAG( StickAttributes, Tip ) END
CLASS( StrongAccent ) ATTRIBUTES( StrongAccent, StrongAccentAttributes ) FLAG( StrongAccentAttributes, DefaultX ) FLAG( StrongAccentAttributes, DefaultY ) FLAG( StrongAccentAttributes, RelativeX ) FLAG( StrongAccentAttributes, RelativeY ) FLAG( StrongAccentAttributes, FontFamily ) FLAG( StrongAccentAttributes, FontStyle ) FLAG( StrongAccentAttributes, FontSize ) FLAG( StrongAccentAttributes, FontWeight ) FLAG( StrongAccentAttributes, Color ) FLAG( StrongAccentAttributes, Placement ) FLAG( StrongAccentAttributes, Type ) END
CLASS( SystemMargins ) ONE( SystemMargins, LeftMargin, LeftMargin ) ONE( SystemMargins, RightMargin, RightMargin ) END
CLASS( Tie ) ATTRIBUTES( Tie, TieAttributes ) ALWAYS( Type ) FLAG( TieAttributes, TimeOnly ) END
CLASS( TimewiseMeasure ) SET( TimewiseMeasure, TimewisePart, TimewisePart, 1, -1 ) AT( TimewiseMeasure, TimewisePart ) ATTRIBUTES( TimewiseMeasure, MeasureAttributes ) ALWAYS( Number ) FLAG( MeasureAttributes, Implicit ) FLAG( MeasureAttributes, NonControlling ) FLAG( MeasureAttributes, Width ) END
CLASS( Transpose ) OPT( Transpose, Diatonic, Diatonic ) ONE( Transpose, Chromatic, Chromatic ) OPT( Transpose, OctaveChange, OctaveChange ) OPT( Transpose, Double, Double ) ATTRIBUTES( Transpose, TransposeAttributes ) FLAG( TransposeAttributes, Number ) END
CLASS( TupletActual ) OPT( TupletActual, TupletNumber, TupletNumber ) OPT( TupletActual, TupletType, TupletType ) SET( TupletActual, TupletDot, TupletDot, 0, -1 ) AT( TupletActual, TupletDot ) END
CLASS( Unstress ) ATTRIBUTES( Unstress, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( WavyLine ) ATTRIBUTES( WavyLine, WavyLineAttributes ) ALWAYS( Type ) FLAG( WavyLineAttributes, Number ) FLAG( WavyLineAttributes, DefaultX ) FLAG( WavyLineAttributes, DefaultY ) FLAG( WavyLineAttributes, RelativeX ) FLAG( WavyLineAttributes, RelativeY ) FLAG( WavyLineAttributes, Placement ) FLAG( WavyLineAttributes, StartNote ) FLAG( WavyLineAttributes, TrillStep ) FLAG( WavyLineAttributes, TwoNoteTurn ) FLAG( WavyLineAttributes, Accelerate ) FLAG( WavyLineAttributes, Beats ) FLAG( WavyLineAttributes, SecondBeat ) FLAG( WavyLineAttributes, LastBeat ) END
CLASS( WorkTitle ) END
}
}
