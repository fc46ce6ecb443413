SPECIFICATION TSpec
CONSTRAINT Report
CONSTANTS
  MaxValues = 65000
  MaxRows = 500
