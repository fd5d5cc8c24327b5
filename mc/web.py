"""Stand-in for the network: every HTTP request made through requests gets a scripted answer."""
import io, zipfile
import requests
import requests.adapters


class Server:
    """with Server(answer) as s: ...   answer(url) -> (status, content type, bytes) or an exception; s.urls lists the addresses."""

    def __init__(self, answer):
        self.answer, self.urls = answer, []

    def __enter__(self):
        self.old = requests.adapters.HTTPAdapter.send
        me = self

        def send(adapter, request, **kw):
            me.urls.append(request.url)
            a = me.answer(request.url)
            if isinstance(a, BaseException):
                raise a
            status, ctype, body = a
            r = requests.Response()
            r.status_code, r._content, r._content_consumed = status, body, True
            r.url, r.request, r.reason = request.url, request, {200: "OK", 404: "Not Found", 500: "Internal Server Error", 503: "Service Unavailable"}.get(status, "x")
            if ctype:
                r.headers["Content-Type"] = ctype
                r.encoding = requests.utils.get_encoding_from_headers(r.headers)
            r.raw = io.BytesIO(body)
            return r
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self.old
        return False


def zipped(text, name="data.txt", method=zipfile.ZIP_DEFLATED):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", method) as z:
        z.writestr(zipfile.ZipInfo(name), text, method)
    return b.getvalue()
