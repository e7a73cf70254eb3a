// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/Accent.h"
#include "mx/core/elements/AccidentalMark.h"
#include "mx/core/elements/AccordionHigh.h"
#include "mx/core/elements/AccordionLow.h"
#include "mx/core/elements/AccordionMiddle.h"
#include "mx/core/elements/AccordionRegistration.h"
#include "mx/core/elements/AccordionRegistrationAttributes.h"
#include "mx/core/elements/ArrowStyle.h"
#include "mx/core/elements/BasePitch.h"
#include "mx/core/elements/BeatUnitDot.h"
#include "mx/core/elements/Beater.h"
#include "mx/core/elements/BendChoice.h"
#include "mx/core/elements/Chord.h"
#include "mx/core/elements/CreditChoice.h"
#include "mx/core/elements/CreditImage.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsGroup.h"
#include "mx/core/elements/DampAll.h"
#include "mx/core/elements/DelayedTurn.h"
#include "mx/core/elements/DelayedTurnAttributes.h"
#include "mx/core/elements/DisplayOctave.h"
#include "mx/core/elements/DisplayStep.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/DoubleTongue.h"
#include "mx/core/elements/Effect.h"
#include "mx/core/elements/Elevation.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/EmptyPrintObjectStyleAlignAttributes.h"
#include "mx/core/elements/EncodingDescription.h"
#include "mx/core/elements/Feature.h"
#include "mx/core/elements/FeatureAttributes.h"
#include "mx/core/elements/FirstFret.h"
#include "mx/core/elements/FirstFretAttributes.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/Glass.h"
#include "mx/core/elements/GroupAbbreviation.h"
#include "mx/core/elements/GroupAbbreviationAttributes.h"
#include "mx/core/elements/HammerOn.h"
#include "mx/core/elements/HammerOnAttributes.h"
#include "mx/core/elements/Heel.h"
#include "mx/core/elements/HeelAttributes.h"
#include "mx/core/elements/Instrument.h"
#include "mx/core/elements/InstrumentAttributes.h"
#include "mx/core/elements/InvertedTurn.h"
#include "mx/core/elements/InvertedTurnAttributes.h"
#include "mx/core/elements/Kind.h"
#include "mx/core/elements/KindAttributes.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/LinkAttributes.h"
#include "mx/core/elements/MeasureRepeat.h"
#include "mx/core/elements/MeasureRepeatAttributes.h"
#include "mx/core/elements/Membrane.h"
#include "mx/core/elements/Metal.h"
#include "mx/core/elements/MetronomeBeam.h"
#include "mx/core/elements/MetronomeDot.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeTuplet.h"
#include "mx/core/elements/MetronomeType.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiDeviceInstrumentGroup.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/Mode.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/Mute.h"
#include "mx/core/elements/NormalDot.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/NormalTypeNormalDotGroup.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/NoteheadTextChoice.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/OrnamentsChoice.h"
#include "mx/core/elements/OtherPercussion.h"
#include "mx/core/elements/OtherPlay.h"
#include "mx/core/elements/OtherPlayAttributes.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartAbbreviationDisplayAttributes.h"
#include "mx/core/elements/PartAttributes.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PercussionChoice.h"
#include "mx/core/elements/Pitched.h"
#include "mx/core/elements/PreBend.h"
#include "mx/core/elements/PrincipalVoice.h"
#include "mx/core/elements/PrincipalVoiceAttributes.h"
#include "mx/core/elements/Release.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/RestAttributes.h"
#include "mx/core/elements/Schleifer.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/Slide.h"
#include "mx/core/elements/SlideAttributes.h"
#include "mx/core/elements/Source.h"
#include "mx/core/elements/StaffLines.h"
#include "mx/core/elements/Stick.h"
#include "mx/core/elements/StickLocation.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/Suffix.h"
#include "mx/core/elements/SuffixAttributes.h"
#include "mx/core/elements/Tap.h"
#include "mx/core/elements/TapAttributes.h"
#include "mx/core/elements/Tied.h"
#include "mx/core/elements/TiedAttributes.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/Timpani.h"
#include "mx/core/elements/Tremolo.h"
#include "mx/core/elements/TremoloAttributes.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletDotAttributes.h"
#include "mx/core/elements/UpBow.h"
#include "mx/core/elements/Wedge.h"
#include "mx/core/elements/WedgeAttributes.h"
#include "mx/core/elements/Wood.h"
using namespace mx::core;
namespace c02
{
void table0( std::vector<Class>& v )
{
CLASS( Accent ) ATTRIBUTES( Accent, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( AccordionRegistration ) OPT( AccordionRegistration, AccordionHigh, AccordionHigh ) OPT( AccordionRegistration, AccordionMiddle, AccordionMiddle ) OPT( AccordionRegistration, AccordionLow, AccordionLow ) ATTRIBUTES( AccordionRegistration, AccordionRegistrationAttributes ) FLAG( AccordionRegistrationAttributes, DefaultX ) FLAG( AccordionRegistrationAttributes, DefaultY ) FLAG( AccordionRegistrationAttributes, RelativeX ) FLAG( AccordionRegistrationAttributes, RelativeY ) FLAG( AccordionRegistrationAttributes, FontFamily ) FLAG( AccordionRegistrationAttributes, FontStyle ) FLAG( AccordionRegistrationAttributes, FontSize ) FLAG( AccordionRegistrationAttributes, FontWeight ) FLAG( AccordionRegistrationAttributes, Color ) FLAG( AccordionRegistrationAttributes, Halign ) FLAG( AccordionRegistrationAttributes, Valign ) END
CLASS( ArrowStyle ) END
CLASS( BasePitch ) END
CLASS( BeatUnitDot ) END
CLASS( BendChoice ) ONE( BendChoice, PreBend, PreBend ) ONE( BendChoice, Release, Release ) CHOICE( BendChoice, BendChoice::Choice ) PICK( BendChoice::Choice, preBend ) PICK( BendChoice::Choice, release ) END
CLASS( Chord ) END
CLASS( CreditChoice ) ONE( CreditChoice, CreditImage, CreditImage ) ONE( CreditChoice, CreditWords, CreditWords ) SET( CreditChoice, CreditWordsGroup, CreditWordsGroup, 0, -1 ) AT( CreditChoice, CreditWordsGroup ) CHOICE( CreditChoice, CreditChoice::Choice ) PICK( CreditChoice::Choice, creditImage ) PICK( CreditChoice::Choice, creditWords ) END
CLASS( DampAll ) ATTRIBUTES( DampAll, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( DelayedTurn ) ATTRIBUTES( DelayedTurn, DelayedTurnAttributes ) FLAG( DelayedTurnAttributes, DefaultX ) FLAG( DelayedTurnAttributes, DefaultY ) FLAG( DelayedTurnAttributes, RelativeX ) FLAG( DelayedTurnAttributes, RelativeY ) FLAG( DelayedTurnAttributes, FontFamily ) FLAG( DelayedTurnAttributes, FontStyle ) FLAG( DelayedTurnAttributes, FontSize ) FLAG( DelayedTurnAttributes, FontWeight ) FLAG( DelayedTurnAttributes, Placement ) FLAG( DelayedTurnAttributes, StartNote ) FLAG( DelayedTurnAttributes, TrillStep ) FLAG( DelayedTurnAttributes, TwoNoteTurn ) FLAG( DelayedTurnAttributes, Accelerate ) FLAG( DelayedTurnAttributes, Beats ) FLAG( DelayedTurnAttributes, SecondBeat ) FLAG( DelayedTurnAttributes, LastBeat ) FLAG( DelayedTurnAttributes, Slash ) END
CLASS( DisplayStepOctaveGroup ) ONE( DisplayStepOctaveGroup, DisplayStep, DisplayStep ) ONE( DisplayStepOctaveGroup, DisplayOctave, DisplayOctave ) END
CLASS( DoubleTongue ) ATTRIBUTES( DoubleTongue, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Elevation ) END
CLASS( EncodingDescription ) END
CLASS( Feature ) ATTRIBUTES( Feature, FeatureAttributes ) FLAG( FeatureAttributes, Type ) END
CLASS( FirstFret ) ATTRIBUTES( FirstFret, FirstFretAttributes ) FLAG( FirstFretAttributes, Text ) FLAG( FirstFretAttributes, Location ) END
CLASS( FullNoteGroup ) OPT( FullNoteGroup, Chord, Chord ) ONE( FullNoteGroup, FullNoteTypeChoice, FullNoteTypeChoice ) END
CLASS( GroupAbbreviation ) ATTRIBUTES( GroupAbbreviation, GroupAbbreviationAttributes ) FLAG( GroupAbbreviationAttributes, DefaultX ) FLAG( GroupAbbreviationAttributes, DefaultY ) FLAG( GroupAbbreviationAttributes, RelativeX ) FLAG( GroupAbbreviationAttributes, RelativeY ) FLAG( GroupAbbreviationAttributes, FontFamily ) FLAG( GroupAbbreviationAttributes, FontStyle ) FLAG( GroupAbbreviationAttributes, FontSize ) FLAG( GroupAbbreviationAttributes, FontWeight ) FLAG( GroupAbbreviationAttributes, Justify ) END
CLASS( HammerOn ) ATTRIBUTES( HammerOn, HammerOnAttributes ) ALWAYS( Type ) FLAG( HammerOnAttributes, Number ) FLAG( HammerOnAttributes, DefaultX ) FLAG( HammerOnAttributes, DefaultY ) FLAG( HammerOnAttributes, RelativeX ) FLAG( HammerOnAttributes, RelativeY ) FLAG( HammerOnAttributes, FontFamily ) FLAG( HammerOnAttributes, FontStyle ) FLAG( HammerOnAttributes, FontSize ) FLAG( HammerOnAttributes, FontWeight ) FLAG( HammerOnAttributes, Placement ) END
CLASS( Heel ) ATTRIBUTES( Heel, HeelAttributes ) FLAG( HeelAttributes, DefaultX ) FLAG( HeelAttributes, DefaultY ) FLAG( HeelAttributes, RelativeX ) FLAG( HeelAttributes, RelativeY ) FLAG( HeelAttributes, FontFamily ) FLAG( HeelAttributes, FontStyle ) FLAG( HeelAttributes, FontSize ) FLAG( HeelAttributes, FontWeight ) FLAG( HeelAttributes, Color ) FLAG( HeelAttributes, Placement ) FLAG( HeelAttributes, Substitution ) END
CLASS( Instrument ) ATTRIBUTES( Instrument, InstrumentAttributes ) ALWAYS( Id ) END
CLASS( InvertedTurn ) ATTRIBUTES( InvertedTurn, InvertedTurnAttributes ) FLAG( InvertedTurnAttributes, DefaultX ) FLAG( InvertedTurnAttributes, DefaultY ) FLAG( InvertedTurnAttributes, RelativeX ) FLAG( InvertedTurnAttributes, RelativeY ) FLAG( InvertedTurnAttributes, FontFamily ) FLAG( InvertedTurnAttributes, FontStyle ) FLAG( InvertedTurnAttributes, FontSize ) FLAG( InvertedTurnAttributes, FontWeight ) FLAG( InvertedTurnAttributes, Placement ) FLAG( InvertedTurnAttributes, StartNote ) FLAG( InvertedTurnAttributes, TrillStep ) FLAG( InvertedTurnAttributes, TwoNoteTurn ) FLAG( InvertedTurnAttributes, Accelerate ) FLAG( InvertedTurnAttributes, Beats ) FLAG( InvertedTurnAttributes, SecondBeat ) FLAG( InvertedTurnAttributes, LastBeat ) FLAG( InvertedTurnAttributes, Slash ) END
CLASS( Kind ) ATTRIBUTES( Kind, KindAttributes ) FLAG( KindAttributes, UseSymbols ) FLAG( KindAttributes, Text ) FLAG( KindAttributes, StackDegrees ) FLAG( KindAttributes, ParenthesesDegrees ) FLAG( KindAttributes, BracketDegrees ) FLAG( KindAttributes, DefaultX ) FLAG( KindAttributes, DefaultY ) FLAG( KindAttributes, RelativeX ) FLAG( KindAttributes, RelativeY ) FLAG( KindAttributes, FontFamily ) FLAG( KindAttributes, FontStyle ) FLAG( KindAttributes, FontSize ) FLAG( KindAttributes, FontWeight ) FLAG( KindAttributes, Halign ) END
CLASS( Link ) ATTRIBUTES( Link, LinkAttributes ) ALWAYS( Href ) FLAG( LinkAttributes, Type ) FLAG( LinkAttributes, Role ) FLAG( LinkAttributes, Title ) FLAG( LinkAttributes, Show ) FLAG( LinkAttributes, Actuate ) FLAG( LinkAttributes, Name ) FLAG( LinkAttributes, Element ) FLAG( LinkAttributes, Position ) FLAG( LinkAttributes, DefaultX ) FLAG( LinkAttributes, DefaultY ) FLAG( LinkAttributes, RelativeX ) FLAG( LinkAttributes, RelativeY ) END
CLASS( MeasureRepeat ) ATTRIBUTES( MeasureRepeat, MeasureRepeatAttributes ) ALWAYS( Type ) FLAG( MeasureRepeatAttributes, Slashes ) END
CLASS( MetronomeNote ) ONE( MetronomeNote, MetronomeType, MetronomeType ) OPT( MetronomeNote, MetronomeTuplet, MetronomeTuplet ) SET( MetronomeNote, MetronomeDot, MetronomeDot, 0, -1 ) AT( MetronomeNote, MetronomeDot ) SET( MetronomeNote, MetronomeBeam, MetronomeBeam, 0, -1 ) AT( MetronomeNote, MetronomeBeam ) END
CLASS( MidiDeviceInstrumentGroup ) OPT( MidiDeviceInstrumentGroup, MidiDevice, MidiDevice ) OPT( MidiDeviceInstrumentGroup, MidiInstrument, MidiInstrument ) END
CLASS( Mode ) END
CLASS( Mute ) END
CLASS( NormalTypeNormalDotGroup ) ONE( NormalTypeNormalDotGroup, NormalType, NormalType ) SET( NormalTypeNormalDotGroup, NormalDot, NormalDot, 0, -1 ) AT( NormalTypeNormalDotGroup, NormalDot ) END
CLASS( NoteheadText ) SET( NoteheadText, NoteheadTextChoice, NoteheadTextChoice, 1, -1 ) END
CLASS( Ornaments ) SET( Ornaments, OrnamentsChoice, OrnamentsChoice, 0, -1 ) AT( Ornaments, OrnamentsChoice ) SET( Ornaments, AccidentalMark, AccidentalMark, 0, -1 ) AT( Ornaments, AccidentalMark ) END
CLASS( OtherPlay ) ATTRIBUTES( OtherPlay, OtherPlayAttributes ) ALWAYS( Type ) END
CLASS( PartAbbreviationDisplay ) SET( PartAbbreviationDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 ) ATTRIBUTES( PartAbbreviationDisplay, PartAbbreviationDisplayAttributes ) FLAG( PartAbbreviationDisplayAttributes, PrintObject ) END
CLASS( PartwisePart ) SET( PartwisePart, PartwiseMeasure, PartwiseMeasure, 1, -1 ) AT( PartwisePart, PartwiseMeasure ) ATTRIBUTES( PartwisePart, PartAttributes ) ALWAYS( Id ) END
CLASS( PercussionChoice ) ONE( PercussionChoice, Glass, Glass ) ONE( PercussionChoice, Metal, Metal ) ONE( PercussionChoice, Wood, Wood ) ONE( PercussionChoice, Pitched, Pitched ) ONE( PercussionChoice, Membrane, Membrane ) ONE( PercussionChoice, Effect, Effect ) ONE( PercussionChoice, Timpani, Timpani ) ONE( PercussionChoice, Beater, Beater ) ONE( PercussionChoice, Stick, Stick ) ONE( PercussionChoice, StickType, StickType ) ONE( PercussionChoice, StickMaterial, StickMaterial ) ONE( PercussionChoice, StickLocation, StickLocation ) ONE( PercussionChoice, OtherPercussion, OtherPercussion ) CHOICE( PercussionChoice, PercussionChoice::Choice ) PICK( PercussionChoice::Choice, glass ) PICK( PercussionChoice::Choice, metal ) PICK( PercussionChoice::Choice, wood ) PICK( PercussionChoice::Choice, pitched ) PICK( PercussionChoice::Choice, membrane ) PICK( PercussionChoice::Choice, effect ) PICK( PercussionChoice::Choice, timpani ) PICK( PercussionChoice::Choice, beater ) PICK( PercussionChoice::Choice, stick ) PICK( PercussionChoice::Choice, stickType ) PICK( PercussionChoice::Choice, stickMaterial ) PICK( PercussionChoice::Choice, stickLocation ) PICK( PercussionChoice::Choice, otherPercussion ) END
CLASS( PrincipalVoice ) ATTRIBUTES( PrincipalVoice, PrincipalVoiceAttributes ) ALWAYS( Type ) ALWAYS( Symbol ) FLAG( PrincipalVoiceAttributes, DefaultX ) FLAG( PrincipalVoiceAttributes, DefaultY ) FLAG( PrincipalVoiceAttributes, RelativeX ) FLAG( PrincipalVoiceAttributes, RelativeY ) FLAG( PrincipalVoiceAttributes, FontFamily ) FLAG( PrincipalVoiceAttributes, FontStyle ) FLAG( PrincipalVoiceAttributes, FontSize ) FLAG( PrincipalVoiceAttributes, FontWeight ) FLAG( PrincipalVoiceAttributes, Halign ) END
CLASS( Rest ) OPT( Rest, DisplayStepOctaveGroup, DisplayStepOctaveGroup ) ATTRIBUTES( Rest, RestAttributes ) FLAG( RestAttributes, Measure ) END
CLASS( Schleifer ) ATTRIBUTES( Schleifer, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Segno ) ATTRIBUTES( Segno, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( Slide ) ATTRIBUTES( Slide, SlideAttributes ) ALWAYS( Type ) FLAG( SlideAttributes, Number ) FLAG( SlideAttributes, LineType ) FLAG( SlideAttributes, DashLength ) FLAG( SlideAttributes, SpaceLength ) FLAG( SlideAttributes, DefaultX ) FLAG( SlideAttributes, DefaultY ) FLAG( SlideAttributes, RelativeX ) FLAG( SlideAttributes, RelativeY ) FLAG( SlideAttributes, FontFamily ) FLAG( SlideAttributes, FontStyle ) FLAG( SlideAttributes, FontSize ) FLAG( SlideAttributes, FontWeight ) FLAG( SlideAttributes, Accelerate ) FLAG( SlideAttributes, Beats ) FLAG( SlideAttributes, FirstBeat ) FLAG( SlideAttributes, LastBeat ) END
CLASS( Source ) END
CLASS( StaffLines ) END
CLASS( StickLocation ) END
CLASS( Suffix ) ATTRIBUTES( Suffix, SuffixAttributes ) FLAG( SuffixAttributes, DefaultX ) FLAG( SuffixAttributes, DefaultY ) FLAG( SuffixAttributes, RelativeX ) FLAG( SuffixAttributes, RelativeY ) FLAG( SuffixAttributes, FontFamily ) FLAG( SuffixAttributes, FontStyle ) FLAG( SuffixAttributes, FontSize ) FLAG( SuffixAttributes, FontWeight ) END
CLASS( Tap ) ATTRIBUTES( Tap, TapAttributes ) FLAG( TapAttributes, DefaultX ) FLAG( TapAttributes, DefaultY ) FLAG( TapAttributes, RelativeX ) FLAG( TapAttributes, RelativeY ) FLAG( TapAttributes, FontFamily ) FLAG( TapAttributes, FontStyle ) FLAG( TapAttributes, FontSize ) FLAG( TapAttributes, FontWeight ) FLAG( TapAttributes, Placement ) END
CLASS( Tied ) ATTRIBUTES( Tied, TiedAttributes ) ALWAYS( Type ) FLAG( TiedAttributes, Number ) FLAG( TiedAttributes, LineType ) FLAG( TiedAttributes, DashLength ) FLAG( TiedAttributes, SpaceLength ) FLAG( TiedAttributes, DefaultX ) FLAG( TiedAttributes, DefaultY ) FLAG( TiedAttributes, RelativeX ) FLAG( TiedAttributes, RelativeY ) FLAG( TiedAttributes, Placement ) FLAG( TiedAttributes, Orientation ) FLAG( TiedAttributes, BezierOffset ) FLAG( TiedAttributes, BezierOffset2 ) FLAG( TiedAttributes, BezierX ) FLAG( TiedAttributes, BezierY ) FLAG( TiedAttributes, BezierX2 ) FLAG( TiedAttributes, BezierY2 ) FLAG( TiedAttributes, Color ) END
CLASS( TimewisePart ) ONE( TimewisePart, MusicDataGroup, MusicDataGroup ) ATTRIBUTES( TimewisePart, PartAttributes ) ALWAYS( Id ) END
CLASS( Tremolo ) ATTRIBUTES( Tremolo, TremoloAttributes ) FLAG( TremoloAttributes, Type ) FLAG( TremoloAttributes, DefaultX ) FLAG( TremoloAttributes, DefaultY ) FLAG( TremoloAttributes, RelativeX ) FLAG( TremoloAttributes, RelativeY ) FLAG( TremoloAttributes, FontFamily ) FLAG( TremoloAttributes, FontStyle ) FLAG( TremoloAttributes, FontSize ) FLAG( TremoloAttributes, FontWeight ) FLAG( TremoloAttributes, Placement ) END
CLASS( TupletDot ) ATTRIBUTES( TupletDot, TupletDotAttributes ) FLAG( TupletDotAttributes, FontFamily ) FLAG( TupletDotAttributes, FontStyle ) FLAG( TupletDotAttributes, FontSize ) FLAG( TupletDotAttributes, FontWeight ) END
CLASS( UpBow ) ATTRIBUTES( UpBow, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Wedge ) ATTRIBUTES( Wedge, WedgeAttributes ) ALWAYS( Type ) FLAG( WedgeAttributes, Number ) FLAG( WedgeAttributes, LineType ) FLAG( WedgeAttributes, Spread ) FLAG( WedgeAttributes, Niente ) FLAG( WedgeAttributes, DashLength ) FLAG( WedgeAttributes, SpaceLength ) FLAG( WedgeAttributes, DefaultX ) FLAG( WedgeAttributes, DefaultY ) FLAG( WedgeAttributes, RelativeX ) FLAG( WedgeAttributes, RelativeY ) END
}
}
