F = "utils/fs_watcher.go"
TICK = '''				for name := range lost {
					if ww.Add(name) == nil {
						delete(lost, name)
						send(Event{
							Name: name,
							Type: EventTypeChanged,
						})
					}
				}
'''
GONE = '''				case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
'''
bug("f-eq-op", "C22", (F, "case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:", "case e.Op == fsnotify.Remove || e.Op == fsnotify.Rename:"))
bug("f-no-rename", "C22", (F, "e.Op&(fsnotify.Remove|fsnotify.Rename) != 0", "e.Op&fsnotify.Remove != 0"))
bug("f-write-eq", "C22", (F, "case e.Op&fsnotify.Write != 0:", "case e.Op == fsnotify.Write:"))
bug("f-no-readd", "C22", (F, "err := ww.Add(e.Name)\n", "err := error(nil)\n"))
bug("f-not-lost", "C22", (F, "						lost[e.Name] = struct{}{}\n", ""))
bug("f-nonblocking", "C22", (F, "		case <-w.done:\n", "		default:\n"))
bug("f-return-on-error", "C22", (F, '				log.Errorf("fs watcher error: %v", err)\n', '				log.Errorf("fs watcher error: %v", err)\n				return\n'))
bug("f-errors-unread", "C22", (F, '''			case err, open := <-ww.Errors:
				// unread errors block the events.
				if !open {
					return
				}
				log.Errorf("fs watcher error: %v", err)
''', ""))
bug("f-first-only", "C22", (F, "	for _, f := range w.files {\n", "	for _, f := range w.files[:1] {\n"))
bug("f-forget-early", "C22", (F, '''					if ww.Add(name) == nil {
						delete(lost, name)
''', '''					delete(lost, name)
					if ww.Add(name) == nil {
'''))
bug("f-lost-silent", "C22", (F, TICK, TICK.replace('''						send(Event{
							Name: name,
							Type: EventTypeChanged,
						})
''', '')))
bug("f-lost-one", "C22", (F, TICK, TICK.replace('''						})
''', '''						})
						break
''')))
bug("f-close-events", "C22", (F, "		close(w.done)\n", "		close(w.done)\n		close(w.events)\n"))
bug("f-close-twice", "C22", (F, "		w.fswatcher = nil\n		close(w.done)\n", "		close(w.done)\n"))
bug("f-error-event-return", "C22", (F, '''							Type: EventTypeError,
						})
						continue
''', '''							Type: EventTypeError,
						})
						return
'''))
bug("f-files-tail", "C22", (F, "		files:  files,\n", "		files:  files[1:],\n"))
bug("f-name-base", "C22", (F, '''						send(Event{
							Name: name,
							Type: EventTypeChanged,
						})
''', '''						send(Event{
							Name: name,
							Type: EventTypeError,
						})
'''))
same("f-has", (F, GONE, "				case e.Op&fsnotify.Remove == fsnotify.Remove || e.Op&fsnotify.Rename != 0:\n"))
same("f-ifs", (F, '''				switch {
				case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:''', '''				gone := e.Op&fsnotify.Remove != 0 || e.Op&fsnotify.Rename != 0
				switch {
				case gone:'''), (F, '''				case e.Op&fsnotify.Write != 0:
					// do reload
				default:
					// do not reload
					continue
				}
''', '''				case e.Op&fsnotify.Write == 0:
					continue
				}
'''))
same("f-method", (F, '''	go func() {
		defer close(w.events)
''', '''	go w.loop(ww, send)
	return nil
}

func (w *fixedFileWatcher) loop(ww *fsnotify.Watcher, send func(Event)) {
		defer close(w.events)
'''), (F, '''					Type: EventTypeChanged,
				})
			}
		}
	}()
	return nil
}
''', '''					Type: EventTypeChanged,
				})
			}
		}
}
'''))
same("f-send-method", (F, '''	send := func(e Event) {
		select {
		case w.events <- e:
		case <-w.done:
		}
	}
''', '''	send := w.send
'''), (F, "func (w *fixedFileWatcher) Close() error {", '''func (w *fixedFileWatcher) send(e Event) {
	select {
	case <-w.done:
	case w.events <- e:
	}
}

func (w *fixedFileWatcher) Close() error {'''))
same("f-done-case", (F, "			case <-ticker.C:\n", "			case <-w.done:\n				return\n			case <-ticker.C:\n"))
same("f-readd-func", (F, '''					_ = ww.Remove(e.Name)
					time.Sleep(time.Second * 2)
					// 等待一定时间之后重新加入 watcher 队列
					err := ww.Add(e.Name)
					if err != nil {
''', '''					if err := again(ww, e.Name); err != nil {
'''), (F, "func (w *fixedFileWatcher) Close() error {", '''func again(ww *fsnotify.Watcher, name string) error {
	_ = ww.Remove(name)
	time.Sleep(time.Second * 2)
	return ww.Add(name)
}

func (w *fixedFileWatcher) Close() error {'''))
bug("f-no-watcher", "C22", (F, "	ww, err := fsnotify.NewWatcher()\n	if err != nil {\n		return err\n	}\n", "	ww, err := fsnotify.NewWatcher()\n	if err != nil {\n		log.Errorf(\"watch files: %v\", err)\n	}\n"))
