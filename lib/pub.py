"""Writing through the public API and reading back with the independent interpreters."""
import io
import outi


def write(obj, fmt, **kw):
    "bytes written by writeEPSfile/writePSfile/writePDFfile/writeSVGfile of a canvas or document"
    f = io.BytesIO()
    getattr(obj, "write%sfile" % fmt.upper())(f, **kw)
    return f.getvalue()


def read(data, fmt):
    "list of pages (with .events)"
    if fmt in ("eps", "ps"):
        return outi.read_ps(data).pages
    if fmt == "pdf":
        return outi.read_pdf(data)[1]
    return [outi.read_svg(data).page]


def events(obj, fmt, **kw):
    return [p.events for p in read(write(obj, fmt, **kw), fmt)]
