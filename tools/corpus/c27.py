H = 'pgp/keyserver/hkp.py'
I = 'pgp/keyserver/__init__.py'
GET = """        response = requests.get(self.get_url, params={
            'op': 'get',
            'search': '0x{}'.format(key_id),
            'options': 'mr',
            'exact': 'yes' if exact else 'no',
            })
        response.raise_for_status()
        return read_key(response.content, True)"""
SEARCH = """            'exact': 'yes' if exact else 'no'
            })
        response.raise_for_status()"""
POST = """            'options': 'mr,nm' if no_modify else 'mr',
            })
        response.raise_for_status()"""
TLS = "('https' if parts.scheme.lower() in ('hkps', 'https')"
CASES = [
    ('tls-only-hkps', ['C27'], 'bug', [(H, TLS, TLS.replace(
        " in ('hkps', 'https')", " == 'hkps'"))]),
    ('verify-off', ['C27'], 'bug', [(H, POST, POST.replace(
        "})", "}, verify=False)"))]),
    ('submit-status', ['C27'], 'bug', [(H, POST, POST.replace(
        "        response.raise_for_status()", ""))]),
    ('search-status', ['C27'], 'bug', [(H, SEARCH, SEARCH.replace(
        "response.raise_for_status()",
        "if response.status_code >= 500:\n"
        "            response.raise_for_status()"))]),
    ('get-error-none', ['C27'], 'bug', [(H, GET, GET.replace(
        "        response.raise_for_status()\n",
        "        if response.status_code != 200:\n"
        "            return None\n"))]),
    ('get-swallow', ['C27'], 'bug', [(H, GET, GET.replace(
        "        response.raise_for_status()\n",
        "        try:\n            response.raise_for_status()\n"
        "        except requests.HTTPError:\n            return None\n"))]),
    ('get-in-url', ['C27'], 'bug', [(H, GET, GET.replace(
        "requests.get(self.get_url, params={",
        "requests.get(self.get_url + '?search=0x' + key_id, params={"
    ).replace("            'search': '0x{}'.format(key_id),\n", ''))]),
    ('port-lost', ['C27'], 'bug', [(H, "            + parts[1:6])",
                                    "            + (parts.hostname,) + parts"
                                    "[2:6])")]),
    ('hkp-port', ['C27'], 'bug', [(H, "and parts.port is None", "")]),
    ('user-lost', ['C27'], 'bug', [(
        H, "            + parts[1:6])",
        "            + (parts.netloc.rpartition('@')[2],) + parts[2:6])")]),
    ('status-by-hand', ['C27'], 'same', [(H, GET, GET.replace(
        "        response.raise_for_status()\n",
        "        if response.status_code >= 400:\n"
        "            raise ValueError(response.status_code)\n"))]),
    ('status-ok', ['C27'], 'same', [(H, POST, POST.replace(
        "        response.raise_for_status()",
        "        if not response.ok:\n"
        "            raise ValueError(response.reason)\n"))]),
    ('session', ['C27'], 'same', [(H, GET, GET.replace(
        "requests.get(", "requests.Session().get("))]),
    ('helper', ['C27'], 'same', [
        (H, GET, GET.replace("        response = requests.get(self.get_url, "
                             "params={", "        params = {").replace(
            "            })\n        response.raise_for_status()\n"
            "        return read_key(response.content, True)",
            "            }\n"
            "        return read_key(self._ask(params).content, True)\n\n"
            "    def _ask(self, params):\n"
            "        r = requests.get(self.get_url, params=params)\n"
            "        r.raise_for_status()\n        return r"))]),
    ('by-url', ['C27'], 'same', [
        (H, GET, GET.replace(
            "requests.get(self.get_url, params={",
            "requests.get(self.get_url + '?' + urlencode({").replace(
                "            })\n", "            }))\n")),
        (H, "from urllib.parse import urljoin",
         "from urllib.parse import urlencode\nfrom urllib.parse import urljoin"
         )]),
]
