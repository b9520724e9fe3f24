package context

iface (Context).Err(ctx)
  trusted asking a context for its error changes nothing
  modifies nothing

package errors

extern errors.New(text)
  trusted errors.New returns a new error and changes nothing
  ensures result != nil
  modifies nothing
