SPECIFICATION Spec
CONSTANTS
  Cells <- All
  MaxLen = 5
INVARIANTS SameAsLookingBack NeverHomeOnAJourney StartsWhereSaid MovesOnlyByJourney NoJourneyNoMove EndsWhereSaid SureActivities OpenActivitiesMove
