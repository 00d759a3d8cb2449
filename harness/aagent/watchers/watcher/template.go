package watcher

//verif:fs .
//verif:override Watcher.ProcessTemplate
//verif:override Watcher.ProcessTemplateBytes

// without templates, which are executed using reflection
func (w *Watcher) ProcessTemplate(s string) (string, error)      { return s, nil }
func (w *Watcher) ProcessTemplateBytes(s string) ([]byte, error) { return []byte(s), nil }
