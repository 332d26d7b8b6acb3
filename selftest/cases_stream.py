X = "api/proxy.go"
S = "server/server.go"
LOOP = '''	buf := bytes.NewBuffer([]byte{})
	for {
		t := make([]byte, 1)
		n, err := reader.Read(t)
		// the last byte may be read along with the end of the stream.
		buf.Write(t[:n])
		if err != nil {
			_, _ = r.Writer.Write(buf.Bytes())
			return nil
		}
		if t[0] == '\\n' {
			_, _ = r.Writer.Write(buf.Bytes())
			buf.Reset()
		}
		select {
		case <-r.Request.Context().Done():
			return nil
		default:
		}
	}
}
'''
bug("w-background", "C31", (X, "context.WithTimeout(r.Request.Context(), timeout)\n	defer cancel()\n	reader", "context.WithTimeout(context.Background(), timeout)\n	defer cancel()\n	reader"))
bug("w-short", "C31", (X, "timeout := 30 * time.Minute", "timeout := 30 * time.Second"))
bug("w-noclose", "C31", (X, "	defer reader.Close()\n", ""))
bug("w-nocancel", "C31", (X, "ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)\n	defer cancel()\n	reader", "ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)\n	if r.Request.Method == \"GET\" {\n		defer cancel()\n	} else {\n		_ = cancel\n	}\n	reader"))
bug("w-lastbyte", "C31", (X, "		// the last byte may be read along with the end of the stream.\n		buf.Write(t[:n])\n", ""), (X, "		if t[0] == '\\n' {", "		buf.Write(t[:n])\n		if t[0] == '\\n' {"))
bug("w-norest", "C31", (X, "		if err != nil {\n			_, _ = r.Writer.Write(buf.Bytes())\n			return nil", "		if err != nil {\n			return nil"))
bug("w-noreset", "C31", (X, "			buf.Reset()\n", ""))
bug("w-resetfirst", "C31", (X, "			_, _ = r.Writer.Write(buf.Bytes())\n			buf.Reset()\n", "			buf.Reset()\n			_, _ = r.Writer.Write(buf.Bytes())\n"))
bug("w-resetalways", "C31", (X, "			buf.Reset()\n		}\n", "		}\n		if buf.Len() > 1<<20 {\n			buf.Reset()\n		}\n"))
bug("w-dropline", "C31", (X, "			_, _ = r.Writer.Write(buf.Bytes())\n			buf.Reset()\n", "			if buf.Len() > 1 {\n				_, _ = r.Writer.Write(buf.Bytes())\n			}\n			buf.Reset()\n"))
bug("w-cr", "C31", (X, "if t[0] == '\\n' {", "if t[0] == '\\r' {"))
bug("w-batch", "C31", (X, "if t[0] == '\\n' {", "if t[0] == '\\n' && buf.Len() > 256 {"))
bug("w-spin", "C31", (X, "		if err != nil {\n			_, _ = r.Writer.Write(buf.Bytes())\n			return nil", "		if err != nil && err.Error() == \"EOF\" {\n			_, _ = r.Writer.Write(buf.Bytes())\n			return nil"))
bug("w-eoferr", "C31", (X, "		if err != nil {\n			_, _ = r.Writer.Write(buf.Bytes())\n			return nil", "		if err != nil {\n			_, _ = r.Writer.Write(buf.Bytes())\n			return err"))
bug("w-large", "C31", (X, "t := make([]byte, 1)", "t := make([]byte, 64)"))
bug("w-extra", "C31", (X, "			_, _ = r.Writer.Write(buf.Bytes())\n			buf.Reset()\n", "			_, _ = r.Writer.Write(bytes.TrimSpace(buf.Bytes()))\n			buf.Reset()\n"))
bug("w-noflush", "C31", (S, "	n, err := w.ResponseWriter.Write(b)\n	w.ResponseWriter.(http.Flusher).Flush()\n", "	n, err := w.ResponseWriter.Write(b)\n	if n > 512 {\n		w.ResponseWriter.(http.Flusher).Flush()\n	}\n"))
bug("w-flushfirst", "C31", (S, "	n, err := w.ResponseWriter.Write(b)\n	w.ResponseWriter.(http.Flusher).Flush()\n", "	w.ResponseWriter.(http.Flusher).Flush()\n	n, err := w.ResponseWriter.Write(b)\n"))
bug("w-leave", "C31", (X, "		default:\n		}\n	}\n}\n\nfunc getRequest", "		case <-time.After(time.Millisecond):\n			if buf.Len() == 1 {\n				return nil\n			}\n		default:\n		}\n	}\n}\n\nfunc getRequest"))
same("w-helper", (X, LOOP, '''	return pipeLines(r, reader)
}

func pipeLines(r *ReqContext, reader interface{ Read([]byte) (int, error) }) interface{} {
''' + LOOP))
same("w-direct", (X, LOOP, '''	t := make([]byte, 4096)
	for {
		n, err := reader.Read(t)
		if n > 0 {
			_, _ = r.Writer.Write(t[:n])
		}
		if err != nil {
			return nil
		}
		if r.Request.Context().Err() != nil {
			return nil
		}
	}
}
'''))
same("w-bufio", (X, LOOP, '''	lines := bufio.NewReader(reader)
	for {
		line, err := lines.ReadBytes('\\n')
		_, _ = r.Writer.Write(line)
		if err != nil {
			break
		}
	}
	return nil
}
'''), (X, '	"bytes"\n', '	"bufio"\n	"bytes"\n'))
same("w-slice", (X, LOOP, '''	var line []byte
	t := make([]byte, 1)
	for {
		n, err := reader.Read(t)
		line = append(line, t[:n]...)
		if err != nil {
			_, _ = r.Writer.Write(line)
			return nil
		}
		if t[0] == '\\n' {
			_, _ = r.Writer.Write(line)
			line = nil
		}
		select {
		case <-r.Request.Context().Done():
			return nil
		default:
		}
	}
}
'''))
same("w-copy", (X, LOOP, '''	_, _ = io.Copy(r.Writer, reader)
	return nil
}
'''))
same("w-cond", (X, LOOP, '''	var buf bytes.Buffer
	emit := func() {
		_, _ = r.Writer.Write(buf.Bytes())
	}
	done := r.Request.Context().Done()
	t := make([]byte, 1)
	for ended := false; !ended; {
		n, err := reader.Read(t)
		buf.Write(t[:n])
		switch {
		case err != nil:
			emit()
			ended = true
		case t[0] == '\\n':
			emit()
			buf.Reset()
		}
		if !ended {
			select {
			case <-done:
				return nil
			default:
			}
		}
	}
	return nil
}
'''))
