// written by tools/gen_c02.py
#include "c02.h"
#include "mx/core/elements/AccordionHigh.h"
#include "mx/core/elements/Arrow.h"
#include "mx/core/elements/ArrowAttributes.h"
#include "mx/core/elements/ArrowGroup.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/BarStyle.h"
#include "mx/core/elements/BarStyleAttributes.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/Barre.h"
#include "mx/core/elements/BeatRepeat.h"
#include "mx/core/elements/BeatRepeatAttributes.h"
#include "mx/core/elements/BeatType.h"
#include "mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.h"
#include "mx/core/elements/Beats.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/Caesura.h"
#include "mx/core/elements/Capo.h"
#include "mx/core/elements/CircularArrow.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/Cue.h"
#include "mx/core/elements/DegreeType.h"
#include "mx/core/elements/DegreeTypeAttributes.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/Directive.h"
#include "mx/core/elements/DirectiveAttributes.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Doit.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceDirectionGroup.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/EmptyPrintObjectStyleAlignAttributes.h"
#include "mx/core/elements/Encoding.h"
#include "mx/core/elements/EncodingChoice.h"
#include "mx/core/elements/Ensemble.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/ExtendAttributes.h"
#include "mx/core/elements/Figure.h"
#include "mx/core/elements/FiguredBass.h"
#include "mx/core/elements/FiguredBassAttributes.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/Frame.h"
#include "mx/core/elements/FrameNote.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/Grace.h"
#include "mx/core/elements/GraceAttributes.h"
#include "mx/core/elements/Group.h"
#include "mx/core/elements/GroupSymbol.h"
#include "mx/core/elements/GroupSymbolAttributes.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/Harmony.h"
#include "mx/core/elements/HarmonyAttributes.h"
#include "mx/core/elements/HarmonyChordGroup.h"
#include "mx/core/elements/Humming.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Interchangeable.h"
#include "mx/core/elements/InterchangeableAttributes.h"
#include "mx/core/elements/KeyChoice.h"
#include "mx/core/elements/LeftDivider.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/LevelAttributes.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/MeasureDistance.h"
#include "mx/core/elements/Metronome.h"
#include "mx/core/elements/MetronomeAttributes.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeRelationGroup.h"
#include "mx/core/elements/MidiBank.h"
#include "mx/core/elements/MidiDeviceInstrumentGroup.h"
#include "mx/core/elements/Millimeters.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/NonTraditionalKey.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteRelationNote.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/OffsetAttributes.h"
#include "mx/core/elements/Opus.h"
#include "mx/core/elements/OtherNotation.h"
#include "mx/core/elements/OtherNotationAttributes.h"
#include "mx/core/elements/PageWidth.h"
#include "mx/core/elements/PartAbbreviation.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartName.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/PartNameDisplayAttributes.h"
#include "mx/core/elements/PerMinute.h"
#include "mx/core/elements/PerMinuteAttributes.h"
#include "mx/core/elements/Pluck.h"
#include "mx/core/elements/PluckAttributes.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/Relation.h"
#include "mx/core/elements/RelationAttributes.h"
#include "mx/core/elements/RightDivider.h"
#include "mx/core/elements/RootAlter.h"
#include "mx/core/elements/RootAlterAttributes.h"
#include "mx/core/elements/ScoreInstrument.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/ScorePartAttributes.h"
#include "mx/core/elements/Slash.h"
#include "mx/core/elements/SlashAttributes.h"
#include "mx/core/elements/SlashDot.h"
#include "mx/core/elements/SlashType.h"
#include "mx/core/elements/Solo.h"
#include "mx/core/elements/SoloOrEnsembleChoice.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffDetails.h"
#include "mx/core/elements/StaffDetailsAttributes.h"
#include "mx/core/elements/StaffLines.h"
#include "mx/core/elements/StaffSize.h"
#include "mx/core/elements/StaffTuning.h"
#include "mx/core/elements/StaffType.h"
#include "mx/core/elements/Stem.h"
#include "mx/core/elements/StemAttributes.h"
#include "mx/core/elements/String.h"
#include "mx/core/elements/StringAttributes.h"
#include "mx/core/elements/SystemDividers.h"
#include "mx/core/elements/Text.h"
#include "mx/core/elements/TextAttributes.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TimeRelation.h"
#include "mx/core/elements/TouchingPitch.h"
#include "mx/core/elements/TraditionalKey.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Type.h"
#include "mx/core/elements/TypeAttributes.h"
#include "mx/core/elements/Voice.h"
#include "mx/core/elements/Work.h"
#include "mx/core/elements/WorkNumber.h"
#include "mx/core/elements/WorkTitle.h"
using namespace mx::core;
namespace c02
{
void table5( std::vector<Class>& v )
{
CLASS( AccordionHigh ) END
CLASS( Arrow ) ONE( Arrow, ArrowGroup, ArrowGroup ) ONE( Arrow, CircularArrow, CircularArrow ) CHOICE( Arrow, Arrow::Choice ) PICK( Arrow::Choice, arrowGroup ) PICK( Arrow::Choice, circularArrow ) ATTRIBUTES( Arrow, ArrowAttributes ) FLAG( ArrowAttributes, DefaultX ) FLAG( ArrowAttributes, DefaultY ) FLAG( ArrowAttributes, RelativeX ) FLAG( ArrowAttributes, RelativeY ) FLAG( ArrowAttributes, FontFamily ) FLAG( ArrowAttributes, FontStyle ) FLAG( ArrowAttributes, FontSize ) FLAG( ArrowAttributes, FontWeight ) FLAG( ArrowAttributes, Color ) FLAG( ArrowAttributes, Placement ) END
CLASS( BarStyle ) ATTRIBUTES( BarStyle, BarStyleAttributes ) FLAG( BarStyleAttributes, Color ) END
CLASS( BeatRepeat ) ONE( BeatRepeat, SlashType, SlashType ) SET( BeatRepeat, SlashDot, SlashDot, 0, -1 ) ATTRIBUTES( BeatRepeat, BeatRepeatAttributes ) ALWAYS( Type ) FLAG( BeatRepeatAttributes, Slashes ) FLAG( BeatRepeatAttributes, UseDots ) END
CLASS( Beats ) END
CLASS( Caesura ) ATTRIBUTES( Caesura, EmptyPlacementAttributes ) FLAG( EmptyPlacementAttributes, DefaultX ) FLAG( EmptyPlacementAttributes, DefaultY ) FLAG( EmptyPlacementAttributes, RelativeX ) FLAG( EmptyPlacementAttributes, RelativeY ) FLAG( EmptyPlacementAttributes, FontFamily ) FLAG( EmptyPlacementAttributes, FontStyle ) FLAG( EmptyPlacementAttributes, FontSize ) FLAG( EmptyPlacementAttributes, FontWeight ) FLAG( EmptyPlacementAttributes, Placement ) END
CLASS( Coda ) ATTRIBUTES( Coda, EmptyPrintObjectStyleAlignAttributes ) FLAG( EmptyPrintObjectStyleAlignAttributes, PrintObject ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultX ) FLAG( EmptyPrintObjectStyleAlignAttributes, DefaultY ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeX ) FLAG( EmptyPrintObjectStyleAlignAttributes, RelativeY ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontFamily ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontStyle ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontSize ) FLAG( EmptyPrintObjectStyleAlignAttributes, FontWeight ) FLAG( EmptyPrintObjectStyleAlignAttributes, Color ) FLAG( EmptyPrintObjectStyleAlignAttributes, Halign ) FLAG( EmptyPrintObjectStyleAlignAttributes, Valign ) END
CLASS( Cue ) END
CLASS( DegreeType ) ATTRIBUTES( DegreeType, DegreeTypeAttributes ) FLAG( DegreeTypeAttributes, Text ) FLAG( DegreeTypeAttributes, DefaultX ) FLAG( DegreeTypeAttributes, DefaultY ) FLAG( DegreeTypeAttributes, RelativeX ) FLAG( DegreeTypeAttributes, RelativeY ) FLAG( DegreeTypeAttributes, FontFamily ) FLAG( DegreeTypeAttributes, FontStyle ) FLAG( DegreeTypeAttributes, FontSize ) FLAG( DegreeTypeAttributes, FontWeight ) END
CLASS( Directive ) ATTRIBUTES( Directive, DirectiveAttributes ) FLAG( DirectiveAttributes, DefaultX ) FLAG( DirectiveAttributes, DefaultY ) FLAG( DirectiveAttributes, RelativeX ) FLAG( DirectiveAttributes, RelativeY ) FLAG( DirectiveAttributes, FontFamily ) FLAG( DirectiveAttributes, FontStyle ) FLAG( DirectiveAttributes, FontSize ) FLAG( DirectiveAttributes, FontWeight ) FLAG( DirectiveAttributes, Lang ) END
CLASS( Doit ) ATTRIBUTES( Doit, EmptyLineAttributes ) FLAG( EmptyLineAttributes, LineShape ) FLAG( EmptyLineAttributes, LineType ) FLAG( EmptyLineAttributes, DashLength ) FLAG( EmptyLineAttributes, SpaceLength ) FLAG( EmptyLineAttributes, DefaultX ) FLAG( EmptyLineAttributes, DefaultY ) FLAG( EmptyLineAttributes, RelativeX ) FLAG( EmptyLineAttributes, RelativeY ) FLAG( EmptyLineAttributes, FontFamily ) FLAG( EmptyLineAttributes, FontStyle ) FLAG( EmptyLineAttributes, FontSize ) FLAG( EmptyLineAttributes, FontWeight ) FLAG( EmptyLineAttributes, Placement ) END
CLASS( EditorialVoiceDirectionGroup ) OPT( EditorialVoiceDirectionGroup, Footnote, Footnote ) OPT( EditorialVoiceDirectionGroup, Level, Level ) OPT( EditorialVoiceDirectionGroup, Voice, Voice ) END
CLASS( Encoding ) SET( Encoding, EncodingChoice, EncodingChoice, 0, -1 ) END
CLASS( Extend ) ATTRIBUTES( Extend, ExtendAttributes ) FLAG( ExtendAttributes, Type ) FLAG( ExtendAttributes, DefaultX ) FLAG( ExtendAttributes, DefaultY ) FLAG( ExtendAttributes, RelativeX ) FLAG( ExtendAttributes, RelativeY ) FLAG( ExtendAttributes, FontFamily ) FLAG( ExtendAttributes, FontStyle ) FLAG( ExtendAttributes, FontSize ) FLAG( ExtendAttributes, FontWeight ) END
CLASS( FiguredBass ) OPT( FiguredBass, Duration, Duration ) ONE( FiguredBass, EditorialGroup, EditorialGroup ) SET( FiguredBass, Figure, Figure, 1, -1 ) AT( FiguredBass, Figure ) ATTRIBUTES( FiguredBass, FiguredBassAttributes ) FLAG( FiguredBassAttributes, DefaultX ) FLAG( FiguredBassAttributes, DefaultY ) FLAG( FiguredBassAttributes, RelativeX ) FLAG( FiguredBassAttributes, RelativeY ) FLAG( FiguredBassAttributes, FontFamily ) FLAG( FiguredBassAttributes, FontStyle ) FLAG( FiguredBassAttributes, FontSize ) FLAG( FiguredBassAttributes, FontWeight ) FLAG( FiguredBassAttributes, Color ) FLAG( FiguredBassAttributes, PrintObject ) FLAG( FiguredBassAttributes, PrintDot ) FLAG( FiguredBassAttributes, PrintSpacing ) FLAG( FiguredBassAttributes, PrintLyric ) FLAG( FiguredBassAttributes, Parentheses ) END
CLASS( FrameNote ) ONE( FrameNote, String, String ) ONE( FrameNote, Fret, Fret ) OPT( FrameNote, Fingering, Fingering ) OPT( FrameNote, Barre, Barre ) END
CLASS( Grace ) ATTRIBUTES( Grace, GraceAttributes ) FLAG( GraceAttributes, StealTimePrevious ) FLAG( GraceAttributes, StealTimeFollowing ) FLAG( GraceAttributes, MakeTime ) FLAG( GraceAttributes, Slash ) END
CLASS( GroupSymbol ) ATTRIBUTES( GroupSymbol, GroupSymbolAttributes ) FLAG( GroupSymbolAttributes, DefaultX ) FLAG( GroupSymbolAttributes, DefaultY ) FLAG( GroupSymbolAttributes, RelativeX ) FLAG( GroupSymbolAttributes, RelativeY ) END
CLASS( Harmony ) OPT( Harmony, Frame, Frame ) OPT( Harmony, Offset, Offset ) ONE( Harmony, EditorialGroup, EditorialGroup ) OPT( Harmony, Staff, Staff ) SET( Harmony, HarmonyChordGroup, HarmonyChordGroup, 1, -1 ) AT( Harmony, HarmonyChordGroup ) ATTRIBUTES( Harmony, HarmonyAttributes ) FLAG( HarmonyAttributes, Type ) FLAG( HarmonyAttributes, PrintObject ) FLAG( HarmonyAttributes, PrintFrame ) FLAG( HarmonyAttributes, DefaultX ) FLAG( HarmonyAttributes, DefaultY ) FLAG( HarmonyAttributes, RelativeX ) FLAG( HarmonyAttributes, RelativeY ) FLAG( HarmonyAttributes, FontFamily ) FLAG( HarmonyAttributes, FontStyle ) FLAG( HarmonyAttributes, FontSize ) FLAG( HarmonyAttributes, FontWeight ) FLAG( HarmonyAttributes, Color ) FLAG( HarmonyAttributes, Placement ) END
CLASS( Humming ) END
CLASS( Interchangeable ) OPT( Interchangeable, TimeRelation, TimeRelation ) ONE( Interchangeable, Beats, Beats ) ONE( Interchangeable, BeatType, BeatType ) ATTRIBUTES( Interchangeable, InterchangeableAttributes ) FLAG( InterchangeableAttributes, Symbol ) FLAG( InterchangeableAttributes, Separator ) END
CLASS( KeyChoice ) ONE( KeyChoice, TraditionalKey, TraditionalKey ) SET( KeyChoice, NonTraditionalKey, NonTraditionalKey, 0, -1 ) CHOICE( KeyChoice, KeyChoice::Choice ) PICK( KeyChoice::Choice, traditionalKey ) PICK( KeyChoice::Choice, nonTraditionalKey ) END
CLASS( Level ) ATTRIBUTES( Level, LevelAttributes ) FLAG( LevelAttributes, Reference ) FLAG( LevelAttributes, Parentheses ) FLAG( LevelAttributes, Bracket ) FLAG( LevelAttributes, Size ) END
CLASS( MeasureDistance ) END
CLASS( Metronome ) ONE( Metronome, BeatUnitPerOrNoteRelationNoteChoice, BeatUnitPerOrNoteRelationNoteChoice ) ATTRIBUTES( Metronome, MetronomeAttributes ) FLAG( MetronomeAttributes, DefaultX ) FLAG( MetronomeAttributes, DefaultY ) FLAG( MetronomeAttributes, RelativeX ) FLAG( MetronomeAttributes, RelativeY ) FLAG( MetronomeAttributes, FontFamily ) FLAG( MetronomeAttributes, FontStyle ) FLAG( MetronomeAttributes, FontSize ) FLAG( MetronomeAttributes, FontWeight ) FLAG( MetronomeAttributes, Color ) FLAG( MetronomeAttributes, Halign ) FLAG( MetronomeAttributes, Valign ) FLAG( MetronomeAttributes, Justify ) FLAG( MetronomeAttributes, Parentheses ) END
CLASS( MidiBank ) END
CLASS( Millimeters ) END
CLASS( MusicDataChoice ) ONE( MusicDataChoice, Note, Note ) ONE( MusicDataChoice, Backup, Backup ) ONE( MusicDataChoice, Forward, Forward ) ONE( MusicDataChoice, Direction, Direction ) ONE( MusicDataChoice, Properties, Properties ) ONE( MusicDataChoice, Harmony, Harmony ) ONE( MusicDataChoice, FiguredBass, FiguredBass ) ONE( MusicDataChoice, Print, Print ) ONE( MusicDataChoice, Sound, Sound ) ONE( MusicDataChoice, Barline, Barline ) ONE( MusicDataChoice, Grouping, Grouping ) ONE( MusicDataChoice, Link, Link ) ONE( MusicDataChoice, Bookmark, Bookmark ) CHOICE( MusicDataChoice, MusicDataChoice::Choice ) PICK( MusicDataChoice::Choice, note ) PICK( MusicDataChoice::Choice, backup ) PICK( MusicDataChoice::Choice, forward ) PICK( MusicDataChoice::Choice, direction ) PICK( MusicDataChoice::Choice, properties ) PICK( MusicDataChoice::Choice, harmony ) PICK( MusicDataChoice::Choice, figuredBass ) PICK( MusicDataChoice::Choice, print ) PICK( MusicDataChoice::Choice, sound ) PICK( MusicDataChoice::Choice, barline ) PICK( MusicDataChoice::Choice, grouping ) PICK( MusicDataChoice::Choice, link ) PICK( MusicDataChoice::Choice, bookmark ) END
CLASS( NormalNoteGroup ) ONE( NormalNoteGroup, FullNoteGroup, FullNoteGroup ) ONE( NormalNoteGroup, Duration, Duration ) SET( NormalNoteGroup, Tie, Tie, 0, 2 ) AT( NormalNoteGroup, Tie ) END
CLASS( NoteRelationNote ) OPT( NoteRelationNote, MetronomeRelationGroup, MetronomeRelationGroup ) SET( NoteRelationNote, MetronomeNote, MetronomeNote, 1, -1 ) END
CLASS( Offset ) ATTRIBUTES( Offset, OffsetAttributes ) FLAG( OffsetAttributes, Sound ) END
CLASS( OtherNotation ) ATTRIBUTES( OtherNotation, OtherNotationAttributes ) ALWAYS( Type ) FLAG( OtherNotationAttributes, Number ) FLAG( OtherNotationAttributes, PrintObject ) FLAG( OtherNotationAttributes, DefaultX ) FLAG( OtherNotationAttributes, DefaultY ) FLAG( OtherNotationAttributes, RelativeX ) FLAG( OtherNotationAttributes, RelativeY ) FLAG( OtherNotationAttributes, FontFamily ) FLAG( OtherNotationAttributes, FontStyle ) FLAG( OtherNotationAttributes, FontSize ) FLAG( OtherNotationAttributes, FontWeight ) FLAG( OtherNotationAttributes, Placement ) END
CLASS( PageWidth ) END
CLASS( PartNameDisplay ) SET( PartNameDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 ) ATTRIBUTES( PartNameDisplay, PartNameDisplayAttributes ) FLAG( PartNameDisplayAttributes, PrintObject ) END
CLASS( PerMinute ) ATTRIBUTES( PerMinute, PerMinuteAttributes ) FLAG( PerMinuteAttributes, FontFamily ) FLAG( PerMinuteAttributes, FontStyle ) FLAG( PerMinuteAttributes, FontSize ) FLAG( PerMinuteAttributes, FontWeight ) END
CLASS( Pluck ) ATTRIBUTES( Pluck, PluckAttributes ) FLAG( PluckAttributes, DefaultX ) FLAG( PluckAttributes, DefaultY ) FLAG( PluckAttributes, RelativeX ) FLAG( PluckAttributes, RelativeY ) FLAG( PluckAttributes, FontFamily ) FLAG( PluckAttributes, FontStyle ) FLAG( PluckAttributes, FontSize ) FLAG( PluckAttributes, FontWeight ) FLAG( PluckAttributes, Placement ) END
CLASS( Relation ) ATTRIBUTES( Relation, RelationAttributes ) FLAG( RelationAttributes, Type ) END
CLASS( RootAlter ) ATTRIBUTES( RootAlter, RootAlterAttributes ) FLAG( RootAlterAttributes, PrintObject ) FLAG( RootAlterAttributes, DefaultX ) FLAG( RootAlterAttributes, DefaultY ) FLAG( RootAlterAttributes, RelativeX ) FLAG( RootAlterAttributes, RelativeY ) FLAG( RootAlterAttributes, FontFamily ) FLAG( RootAlterAttributes, FontStyle ) FLAG( RootAlterAttributes, FontSize ) FLAG( RootAlterAttributes, FontWeight ) FLAG( RootAlterAttributes, Location ) END
CLASS( ScorePart ) OPT( ScorePart, Identification, Identification ) ONE( ScorePart, PartName, PartName ) OPT( ScorePart, PartNameDisplay, PartNameDisplay ) OPT( ScorePart, PartAbbreviation, PartAbbreviation ) OPT( ScorePart, PartAbbreviationDisplay, PartAbbreviationDisplay ) SET( ScorePart, Group, Group, 0, -1 ) AT( ScorePart, Group ) SET( ScorePart, ScoreInstrument, ScoreInstrument, 0, -1 ) AT( ScorePart, ScoreInstrument ) SET( ScorePart, MidiDeviceInstrumentGroup, MidiDeviceInstrumentGroup, 0, -1 ) AT( ScorePart, MidiDeviceInstrumentGroup ) ATTRIBUTES( ScorePart, ScorePartAttributes ) ALWAYS( Id ) END
CLASS( Slash ) ONE( Slash, SlashType, SlashType ) SET( Slash, SlashDot, SlashDot, 0, -1 ) ATTRIBUTES( Slash, SlashAttributes ) ALWAYS( Type ) FLAG( SlashAttributes, UseDots ) FLAG( SlashAttributes, UseStems ) END
CLASS( SoloOrEnsembleChoice ) ONE( SoloOrEnsembleChoice, Solo, Solo ) ONE( SoloOrEnsembleChoice, Ensemble, Ensemble ) CHOICE( SoloOrEnsembleChoice, SoloOrEnsembleChoice::Choice ) PICK( SoloOrEnsembleChoice::Choice, solo ) PICK( SoloOrEnsembleChoice::Choice, ensemble ) END
CLASS( StaffDetails ) OPT( StaffDetails, StaffType, StaffType ) OPT( StaffDetails, StaffLines, StaffLines ) OPT( StaffDetails, Capo, Capo ) OPT( StaffDetails, StaffSize, StaffSize ) SET( StaffDetails, StaffTuning, StaffTuning, 0, -1 ) ATTRIBUTES( StaffDetails, StaffDetailsAttributes ) FLAG( StaffDetailsAttributes, Number ) FLAG( StaffDetailsAttributes, ShowFrets ) FLAG( StaffDetailsAttributes, PrintObject ) FLAG( StaffDetailsAttributes, PrintSpacing ) END
CLASS( Stem ) ATTRIBUTES( Stem, StemAttributes ) FLAG( StemAttributes, DefaultX ) FLAG( StemAttributes, DefaultY ) FLAG( StemAttributes, RelativeX ) FLAG( StemAttributes, RelativeY ) END
CLASS( String ) ATTRIBUTES( String, StringAttributes ) FLAG( StringAttributes, DefaultX ) FLAG( StringAttributes, DefaultY ) FLAG( StringAttributes, RelativeX ) FLAG( StringAttributes, RelativeY ) FLAG( StringAttributes, FontFamily ) FLAG( StringAttributes, FontStyle ) FLAG( StringAttributes, FontSize ) FLAG( StringAttributes, FontWeight ) FLAG( StringAttributes, Color ) FLAG( StringAttributes, Placement ) END
CLASS( SystemDividers ) ONE( SystemDividers, LeftDivider, LeftDivider ) ONE( SystemDividers, RightDivider, RightDivider ) END
CLASS( Text ) ATTRIBUTES( Text, TextAttributes ) FLAG( TextAttributes, FontFamily ) FLAG( TextAttributes, FontStyle ) FLAG( TextAttributes, FontSize ) FLAG( TextAttributes, FontWeight ) FLAG( TextAttributes, Underline ) FLAG( TextAttributes, Overline ) FLAG( TextAttributes, LineThrough ) FLAG( TextAttributes, Rotation ) FLAG( TextAttributes, LetterSpacing ) FLAG( TextAttributes, Lang ) END
CLASS( TimeRelation ) END
CLASS( TouchingPitch ) END
CLASS( TuningStep ) END
CLASS( Type ) ATTRIBUTES( Type, TypeAttributes ) FLAG( TypeAttributes, Size ) END
CLASS( Voice ) END
CLASS( Work ) OPT( Work, WorkNumber, WorkNumber ) OPT( Work, WorkTitle, WorkTitle ) OPT( Work, Opus, Opus ) END
}
}
