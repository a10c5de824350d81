SPECIFICATION Spec
CONSTANTS
  Cells <- Few
  MaxLen = 5
INVARIANTS SameAsLookingBack NeverHomeOnAJourney StartsWhereSaid MovesOnlyByJourney NoJourneyNoMove EndsWhereSaid SureActivities OpenActivitiesMove
