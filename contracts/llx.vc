package .

extern fmt.Sprintf(format, args)
  trusted fmt.Sprintf returns some string and changes nothing the caller can observe
  modifies nothing

func NewError(code, msg, name, line, col)
  props C25
  ensures fresh(result) && result.Code == code && result.SourceName == name && result.Line == line && result.Col == col
  ensures name == "" || line == 0 || col == 0 ==> result.Message == msg
  modifies nothing

func (*Error).Error(e)
  props C25
  requires e != nil
  ensures result == e.Message
  modifies nothing

func FormatError(code, msg, params)
  props C25
  ensures fresh(result) && result.Code == code && result.SourceName == "" && result.Line == 0 && result.Col == 0
  ensures len(params) == 0 ==> result.Message == msg
  modifies nothing
