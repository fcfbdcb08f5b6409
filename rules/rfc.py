"""What RFC 6350 and the crate's documentation say about vCard properties and parameters."""

# field of the card -> property name
NAMES = {
    "source": "SOURCE", "kind": "KIND", "xml": "XML", "formatted_name": "FN", "name": "N", "nickname": "NICKNAME", "photo": "PHOTO",
    "bday": "BDAY", "anniversary": "ANNIVERSARY", "gender": "GENDER", "address": "ADR", "tel": "TEL", "email": "EMAIL", "impp": "IMPP",
    "lang": "LANG", "timezone": "TZ", "geo": "GEO", "title": "TITLE", "role": "ROLE", "logo": "LOGO", "org": "ORG", "member": "MEMBER",
    "related": "RELATED", "categories": "CATEGORIES", "note": "NOTE", "prod_id": "PRODID", "rev": "REV", "sound": "SOUND", "uid": "UID",
    "client_pid_map": "CLIENTPIDMAP", "url": "URL", "key": "KEY", "fburl": "FBURL", "cal_adr_uri": "CALADRURI", "cal_uri": "CALURI",
}
EXTENSIONS = "extensions"

# properties of cardinality *1 (once at most)
ONCE = {"KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID"}

# field of Parameters -> key
PARAMS = {"language": "LANGUAGE", "value": "VALUE", "pref": "PREF", "alt_id": "ALTID", "pid": "PID", "types": "TYPE", "media_type": "MEDIATYPE",
          "calscale": "CALSCALE", "sort_as": "SORT-AS", "geo": "GEO", "timezone": "TZ", "label": "LABEL"}

# parameters that may be given several times on a line
PARAM_LISTS = {"types", "extensions"}

# enumerations: type -> variant -> text
ENUMS = {
    "property::Kind": {"Individual": "individual", "Group": "group", "Org": "org", "Location": "location"},
    "property::Sex": {"None": "", "Male": "M", "Female": "F", "Other": "O", "NotApplicable": "N", "Unknown": "U"},
    "parameter::TelephoneType": {"Text": "text", "Voice": "voice", "Fax": "fax", "Cell": "cell", "Video": "video", "Pager": "pager",
                                 "TextPhone": "textphone"},
    "parameter::RelatedType": {"Contact": "contact", "Acquaintance": "acquaintance", "Friend": "friend", "Met": "met", "CoWorker": "co-worker",
                               "Colleague": "colleague", "CoResident": "co-resident", "Neighbor": "neighbor", "Child": "child",
                               "Parent": "parent", "Sibling": "sibling", "Spouse": "spouse", "Kin": "kin", "Muse": "muse", "Crush": "crush",
                               "Date": "date", "Sweetheart": "sweetheart", "Me": "me", "Agent": "agent", "Emergency": "emergency"},
    "parameter::ValueType": {"Text": "text", "Uri": "uri", "Date": "date", "Time": "time", "DateTime": "date-time",
                             "DateAndOrTime": "date-and-or-time", "Timestamp": "timestamp", "Boolean": "boolean", "Integer": "integer",
                             "Float": "float", "UtcOffset": "utc-offset", "LanguageTag": "language-tag"},
}
TYPE_PARAMETER = {"Home": "home", "Work": "work", "Telephone": "parameter::TelephoneType", "Related": "parameter::RelatedType"}
