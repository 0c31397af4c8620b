# profile switches (set by the specification being checked)
ABSTRACT_ARR = True
ABSTRACT_ALM = True
ENUMS = {}           # names of enumeration types, filled while the sources are indexed
