// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/AccordionLow.h"
#include "mx/core/elements/ArrowDirection.h"
#include "mx/core/elements/BarStyle.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/BarlineAttributes.h"
#include "mx/core/elements/Bass.h"
#include "mx/core/elements/BeatType.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/Beats.h"
#include "mx/core/elements/Bend.h"
#include "mx/core/elements/BendAlter.h"
#include "mx/core/elements/BendAttributes.h"
#include "mx/core/elements/BendChoice.h"
#include "mx/core/elements/Cancel.h"
#include "mx/core/elements/CancelAttributes.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/Creator.h"
#include "mx/core/elements/CreatorAttributes.h"
#include "mx/core/elements/Cue.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/Degree.h"
#include "mx/core/elements/DegreeValue.h"
#include "mx/core/elements/DegreeValueAttributes.h"
#include "mx/core/elements/DisplayOctave.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/Dot.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/EmptyPrintObjectStyleAlignAttributes.h"
#include "mx/core/elements/Encoder.h"
#include "mx/core/elements/Encoding.h"
#include "mx/core/elements/EncodingChoice.h"
#include "mx/core/elements/EncodingDate.h"
#include "mx/core/elements/EncodingDescription.h"
#include "mx/core/elements/Ending.h"
#include "mx/core/elements/Eyeglasses.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/Fifths.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/FingeringAttributes.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/FrameStrings.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/Function.h"
#include "mx/core/elements/Grace.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/GroupTime.h"
#include "mx/core/elements/HarmonyChordGroup.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Interchangeable.h"
#include "mx/core/elements/Inversion.h"
#include "mx/core/elements/InversionAttributes.h"
#include "mx/core/elements/KeyOctave.h"
#include "mx/core/elements/KeyOctaveAttributes.h"
#include "mx/core/elements/Kind.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/Line.h"
#include "mx/core/elements/MeasureDistance.h"
#include "mx/core/elements/MeasureLayout.h"
#include "mx/core/elements/MetronomeBeam.h"
#include "mx/core/elements/MetronomeBeamAttributes.h"
#include "mx/core/elements/MidiChannel.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/Miscellaneous.h"
#include "mx/core/elements/MiscellaneousField.h"
#include "mx/core/elements/Mode.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/NormalNotes.h"
#include "mx/core/elements/NoteSize.h"
#include "mx/core/elements/NoteSizeAttributes.h"
#include "mx/core/elements/OpenString.h"
#include "mx/core/elements/OtherOrnament.h"
#include "mx/core/elements/OtherOrnamentAttributes.h"
#include "mx/core/elements/Pan.h"
#include "mx/core/elements/PartSymbol.h"
#include "mx/core/elements/PartSymbolAttributes.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PerMinute.h"
#include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/PreBend.h"
#include "mx/core/elements/Relation.h"
#include "mx/core/elements/Release.h"
#include "mx/core/elements/Repeat.h"
#include "mx/core/elements/Rights.h"
#include "mx/core/elements/Root.h"
#include "mx/core/elements/RootStep.h"
#include "mx/core/elements/RootStepAttributes.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScorePartwiseAttributes.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/SlashDot.h"
#include "mx/core/elements/Software.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/SoundAttributes.h"
#include "mx/core/elements/Source.h"
#include "mx/core/elements/StaffDistance.h"
#include "mx/core/elements/Step.h"
#include "mx/core/elements/StringMute.h"
#include "mx/core/elements/StringMuteAttributes.h"
#include "mx/core/elements/Supports.h"
#include "mx/core/elements/SystemDistance.h"
#include "mx/core/elements/SystemDividers.h"
#include "mx/core/elements/SystemLayout.h"
#include "mx/core/elements/SystemMargins.h"
#include "mx/core/elements/ThumbPosition.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TimeSignatureGroup.h"
#include "mx/core/elements/TopSystemDistance.h"
#include "mx/core/elements/TraditionalKey.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/TupletActual.h"
#include "mx/core/elements/TupletAttributes.h"
#include "mx/core/elements/TupletNormal.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/Voice.h"
#include "mx/core/elements/Volume.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/WithBar.h"
#include "mx/core/elements/WorkNumber.h"
using namespace mx::core;
namespace c02
{
void table6( std::vector<Class>& v )
{
CLASS( AccordionLow ) END
CLASS( ArrowDirection ) END
CLASS( Barline ) OPT( Barline, BarStyle, BarStyle ) ONE( Barline, EditorialGroup, EditorialGroup ) OPT( Barline, WavyLine, WavyLine ) OPT( Barline, Segno, Segno ) OPT( Barline, Coda, Coda ) OPT( Barline, Ending, Ending ) OPT( Barline, Repeat, Repeat ) SET( Barline, Fermata, Fermata, 0, 2 ) AT( Barline, Fermata ) ATTRIBUTES( Barline, BarlineAttributes ) FLAG( BarlineAttributes, Location ) FLAG( BarlineAttributes, Segno ) FLAG( BarlineAttributes, Coda ) FLAG( BarlineAttributes, Divisions ) END
CLASS( BeatType ) END
CLASS( Bend ) ONE( Bend, BendAlter, BendAlter ) OPT( Bend, BendChoice, BendChoice ) OPT( Bend, WithBar, WithBar ) ATTRIBUTES( Bend, BendAttributes ) FLAG( BendAttributes, DefaultX ) FLAG( BendAttributes, DefaultY ) FLAG( BendAttributes, RelativeX ) FLAG( BendAttributes, RelativeY ) FLAG( BendAttributes, FontFamily ) FLAG( BendAttributes, FontStyle ) FLAG( BendAttributes, FontSize ) FLAG( BendAttributes, FontWeight ) FLAG( BendAttributes, Color ) FLAG( BendAttributes, Accelerate ) FLAG( BendAttributes, Beats ) FLAG( BendAttributes, FirstBeat ) FLAG( BendAttributes, LastBeat ) END
CLASS( Cancel ) ATTRIBUTES( Cancel, CancelAttributes ) FLAG( CancelAttributes, Location ) END
CLASS( Creator ) ATTRIBUTES( Creator, CreatorAttributes ) FLAG( CreatorAttributes, Type ) END
CLASS( CueNoteGroup ) ONE( CueNoteGroup, Cue, Cue ) ONE( CueNoteGroup, FullNoteGroup, FullNoteGroup ) ONE( CueNoteGroup, Duration, Duration ) END
CLASS( DegreeValue ) ATTRIBUTES( DegreeValue, DegreeValueAttributes ) FLAG( DegreeValueAttributes, Symbol ) FLAG( DegreeValueAttributes, Text ) FLAG( DegreeValueAttributes, DefaultX ) FLAG( DegreeValueAttributes, DefaultY ) FLAG( DegreeValueAttributes, RelativeX ) FLAG( DegreeValueAttributes, RelativeY ) FLAG( DegreeValueAttributes, FontFamily ) FLAG( DegreeValueAttributes, FontStyle ) FLAG( DegreeValueAttributes, FontSize ) FLAG( DegreeValueAttributes, FontWeight ) END
CLASS( DisplayOctave ) END
CLASS( Dot ) ATTRIBUTES( Dot, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( EditorialVoiceGroup ) OPT( EditorialVoiceGroup, Footnote, Footnote ) OPT( EditorialVoiceGroup, Level, Level ) OPT( EditorialVoiceGroup, Voice, Voice ) END
CLASS( EncodingChoice ) ONE( EncodingChoice, EncodingDate, EncodingDate ) ONE( EncodingChoice, Encoder, Encoder ) ONE( EncodingChoice, Software, Software ) ONE( EncodingChoice, EncodingDescription, EncodingDescription ) ONE( EncodingChoice, Supports, Supports ) CHOICE( EncodingChoice, EncodingChoice::Choice ) PICK( EncodingChoice::Choice, encodingDate ) PICK( EncodingChoice::Choice, encoder ) PICK( EncodingChoice::Choice, software ) PICK( EncodingChoice::Choice, encodingDescription ) PICK( EncodingChoice::Choice, supports ) END
CLASS( Eyeglasses ) ATTRIBUTES( Eyeglasses, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( Fingering ) ATTRIBUTES( Fingering, FingeringAttributes ) FLAG( FingeringAttributes, Substitution ) FLAG( FingeringAttributes, Alternate ) FLAG( FingeringAttributes, DefaultX ) FLAG( FingeringAttributes, DefaultY ) FLAG( FingeringAttributes, RelativeX ) FLAG( FingeringAttributes, RelativeY ) FLAG( FingeringAttributes, FontFamily ) FLAG( FingeringAttributes, FontStyle ) FLAG( FingeringAttributes, FontSize ) FLAG( FingeringAttributes, FontWeight ) FLAG( FingeringAttributes, Placement ) END
CLASS( FrameStrings ) END
CLASS( GraceNoteGroup ) ONE( GraceNoteGroup, Grace, Grace ) ONE( GraceNoteGroup, FullNoteGroup, FullNoteGroup ) SET( GraceNoteGroup, Tie, Tie, 0, 2 ) AT( GraceNoteGroup, Tie ) END
CLASS( GroupTime ) END
CLASS( HarmonyChordGroup ) ONE( HarmonyChordGroup, Root, Root ) ONE( HarmonyChordGroup, Function, Function ) ONE( HarmonyChordGroup, Kind, Kind ) OPT( HarmonyChordGroup, Inversion, Inversion ) OPT( HarmonyChordGroup, Bass, Bass ) SET( HarmonyChordGroup, Degree, Degree, 0, -1 ) AT( HarmonyChordGroup, Degree ) CHOICE( HarmonyChordGroup, HarmonyChordGroup::Choice ) PICK( HarmonyChordGroup::Choice, root ) PICK( HarmonyChordGroup::Choice, function ) END
CLASS( Identification ) OPT( Identification, Encoding, Encoding ) OPT( Identification, Source, Source ) OPT( Identification, Miscellaneous, Miscellaneous ) SET( Identification, Creator, Creator, 0, -1 ) AT( Identification, Creator ) SET( Identification, Rights, Rights, 0, -1 ) AT( Identification, Rights ) SET( Identification, Relation, Relation, 0, -1 ) AT( Identification, Relation ) END
CLASS( Inversion ) ATTRIBUTES( Inversion, InversionAttributes ) FLAG( InversionAttributes, DefaultX ) FLAG( InversionAttributes, DefaultY ) FLAG( InversionAttributes, RelativeX ) FLAG( InversionAttributes, RelativeY ) FLAG( InversionAttributes, FontFamily ) FLAG( InversionAttributes, FontStyle ) FLAG( InversionAttributes, FontSize ) FLAG( InversionAttributes, FontWeight ) END
CLASS( KeyOctave ) ATTRIBUTES( KeyOctave, KeyOctaveAttributes ) ALWAYS( Number ) FLAG( KeyOctaveAttributes, Cancel ) END
CLASS( Line ) END
CLASS( MeasureLayout ) OPT( MeasureLayout, MeasureDistance, MeasureDistance ) END
CLASS( MetronomeBeam ) ATTRIBUTES( MetronomeBeam, MetronomeBeamAttributes ) FLAG( MetronomeBeamAttributes, Number ) END
CLASS( MidiChannel ) END
CLASS( Miscellaneous ) SET( Miscellaneous, MiscellaneousField, MiscellaneousField, 0, -1 ) AT( Miscellaneous, MiscellaneousField ) END
CLASS( MusicDataGroup ) SET( MusicDataGroup, MusicDataChoice, MusicDataChoice, 0, -1 ) AT( MusicDataGroup, MusicDataChoice ) END
CLASS( NormalNotes ) END
CLASS( NoteSize ) ATTRIBUTES( NoteSize, NoteSizeAttributes ) ALWAYS( Type ) END
CLASS( OpenString ) ATTRIBUTES( OpenString, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( OtherOrnament ) ATTRIBUTES( OtherOrnament, OtherOrnamentAttributes ) FLAG( OtherOrnamentAttributes, DefaultX ) FLAG( OtherOrnamentAttributes, DefaultY ) FLAG( OtherOrnamentAttributes, RelativeX ) FLAG( OtherOrnamentAttributes, RelativeY ) FLAG( OtherOrnamentAttributes, FontFamily ) FLAG( OtherOrnamentAttributes, FontStyle ) FLAG( OtherOrnamentAttributes, FontSize ) FLAG( OtherOrnamentAttributes, FontWeight ) FLAG( OtherOrnamentAttributes, Placement ) END
CLASS( Pan ) END
CLASS( PartSymbol ) ATTRIBUTES( PartSymbol, PartSymbolAttributes ) FLAG( PartSymbolAttributes, TopStaff ) FLAG( PartSymbolAttributes, BottomStaff ) FLAG( PartSymbolAttributes, DefaultX ) FLAG( PartSymbolAttributes, DefaultY ) FLAG( PartSymbolAttributes, RelativeX ) FLAG( PartSymbolAttributes, RelativeY ) END
CLASS( PerMinuteOrBeatUnitChoice ) ONE( PerMinuteOrBeatUnitChoice, PerMinute, PerMinute ) ONE( PerMinuteOrBeatUnitChoice, BeatUnitGroup, BeatUnitGroup ) CHOICE( PerMinuteOrBeatUnitChoice, PerMinuteOrBeatUnitChoice::Choice ) PICK( PerMinuteOrBeatUnitChoice::Choice, perMinute ) PICK( PerMinuteOrBeatUnitChoice::Choice, beatUnitGroup ) END
CLASS( PreBend ) END
CLASS( Release ) END
CLASS( RootStep ) ATTRIBUTES( RootStep, RootStepAttributes ) FLAG( RootStepAttributes, Text ) FLAG( RootStepAttributes, DefaultX ) FLAG( RootStepAttributes, DefaultY ) FLAG( RootStepAttributes, RelativeX ) FLAG( RootStepAttributes, RelativeY ) FLAG( RootStepAttributes, FontFamily ) FLAG( RootStepAttributes, FontStyle ) FLAG( RootStepAttributes, FontSize ) FLAG( RootStepAttributes, FontWeight ) END
CLASS( ScorePartwise ) ONE( ScorePartwise, ScoreHeaderGroup, ScoreHeaderGroup ) SET( ScorePartwise, PartwisePart, PartwisePart, 1, -1 ) AT( ScorePartwise, PartwisePart ) ATTRIBUTES( ScorePartwise, ScorePartwiseAttributes ) FLAG( ScorePartwiseAttributes, Version ) END
CLASS( SlashDot ) END
CLASS( Sound ) OPT( Sound, MidiDevice, MidiDevice ) OPT( Sound, MidiInstrument, MidiInstrument ) OPT( Sound, Play, Play ) ATTRIBUTES( Sound, SoundAttributes ) FLAG( SoundAttributes, Tempo ) FLAG( SoundAttributes, Dynamics ) FLAG( SoundAttributes, Dacapo ) FLAG( SoundAttributes, Segno ) FLAG( SoundAttributes, Dalsegno ) FLAG( SoundAttributes, Coda ) FLAG( SoundAttributes, Tocoda ) FLAG( SoundAttributes, Divisions ) FLAG( SoundAttributes, ForwardRepeat ) FLAG( SoundAttributes, Fine ) FLAG( SoundAttributes, TimeOnly ) FLAG( SoundAttributes, Pizzicato ) FLAG( SoundAttributes, Pan ) FLAG( SoundAttributes, Elevation ) FLAG( SoundAttributes, DamperPedal ) FLAG( SoundAttributes, SoftPedal ) FLAG( SoundAttributes, SostenutoPedal ) END
CLASS( StaffDistance ) END
CLASS( Step ) END
CLASS( StringMute ) ATTRIBUTES( StringMute, StringMuteAttributes ) ALWAYS( Type ) FLAG( StringMuteAttributes, DefaultX ) FLAG( StringMuteAttributes, DefaultY ) FLAG( StringMuteAttributes, RelativeX ) FLAG( StringMuteAttributes, RelativeY ) FLAG( StringMuteAttributes, FontFamily ) FLAG( StringMuteAttributes, FontStyle ) FLAG( StringMuteAttributes, FontSize ) FLAG( StringMuteAttributes, FontWeight ) FLAG( StringMuteAttributes, Halign ) END
CLASS( SystemLayout ) OPT( SystemLayout, SystemMargins, SystemMargins ) OPT( SystemLayout, SystemDistance, SystemDistance ) OPT( SystemLayout, TopSystemDistance, TopSystemDistance ) OPT( SystemLayout, SystemDividers, SystemDividers ) END
CLASS( ThumbPosition ) ATTRIBUTES( ThumbPosition, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( TimeSignatureGroup ) ONE( TimeSignatureGroup, Beats, Beats ) ONE( TimeSignatureGroup, BeatType, BeatType ) OPT( TimeSignatureGroup, Interchangeable, Interchangeable ) END
CLASS( TraditionalKey ) OPT( TraditionalKey, Cancel, Cancel ) ONE( TraditionalKey, Fifths, Fifths ) OPT( TraditionalKey, Mode, Mode ) END
CLASS( Tuplet ) OPT( Tuplet, TupletActual, TupletActual ) OPT( Tuplet, TupletNormal, TupletNormal ) ATTRIBUTES( Tuplet, TupletAttributes ) ALWAYS( Type ) FLAG( TupletAttributes, Number ) FLAG( TupletAttributes, Bracket ) FLAG( TupletAttributes, ShowNumber ) FLAG( TupletAttributes, ShowType ) FLAG( TupletAttributes, LineShape ) FLAG( TupletAttributes, DefaultX ) FLAG( TupletAttributes, DefaultY ) FLAG( TupletAttributes, RelativeX ) FLAG( TupletAttributes, RelativeY ) FLAG( TupletAttributes, Placement ) END
CLASS( Unpitched ) OPT( Unpitched, DisplayStepOctaveGroup, DisplayStepOctaveGroup ) END
CLASS( Volume ) END
CLASS( WorkNumber ) END
}
}
