A = 'pgp/pinentry/gpg_agent.py'
G = 'pgp/pinentry/getpass.py'
CONF = """                if getpass('Confirm: ', stream=stream) != passphrase:
                    match = False
"""
TRY = """        try:
            self.send('GET_PASSPHRASE {0}'.format(params))
            response = self.get_response()
        finally:
            self.disconnect()
"""
CONN = """        try:
            self._sock.connect(self.socket_path)
            # Get welcome line
            self.get_response()
        except:
            self.disconnect()
            raise
"""
ERR = """                elif buf[:3] == b'ERR':
                    raise ValueError(buf[4:].decode('latin-1'))
"""
CASES = [
    ('confirm-last', ['C28'], 'bug', [(G, CONF, """                match = getpass('Confirm: ', stream=stream) == passphrase
                if not match:
""")]),
    ('confirm-lower', ['C28'], 'bug', [(G, CONF, CONF.replace(
        "stream=stream) != passphrase:",
        "stream=stream).strip() != passphrase.strip():"))]),
    ('confirm-prefix', ['C28'], 'bug', [(G, CONF, CONF.replace(
        "if getpass('Confirm: ', stream=stream) != passphrase:",
        "if not getpass('Confirm: ', stream=stream).startswith(passphrase):"
    ))]),
    ('confirm-once', ['C28'], 'bug', [(G, "for _i in range(repeat):",
                                       "for _i in range(min(repeat, 1)):")]),
    ('confirm-give-up', ['C28'], 'bug', [
        (G, "        match = False\n        while not match:",
         "        match = False\n        tries = 0\n"
         "        while not match and tries < 3:\n            tries += 1")]),
    ('cache-shared', ['C28'], 'bug', [(G, """    def __init__(self):
        self._cache = {}
""", "    _cache = {}\n")]),
    ('cache-always', ['C28'], 'bug', [(G, "        if use_cache and cache_id:\n"
                                       "            self._cache",
                                       "        if cache_id:\n"
                                       "            self._cache")]),
    ('cache-x', ['C28'], 'bug', [(G, """        if cache_id == 'X':
            cache_id = None
""", "")]),
    ('no-ask', ['C28'], 'bug', [(G, "        if no_ask:",
                                 "        if no_ask and cache_id:")]),
    ('no-ask-2', ['C28'], 'bug', [(G, "        if no_ask:",
                                   "        if no_ask and use_cache:")]),
    ('clear-nothing', ['C28'], 'bug', [(G, "            del self._cache[cache_id]",
                                        "            break")]),
    ('esc-desc', ['C28'], 'bug', [(A, "_quote(description)", "description")]),
    ('esc-clear', ['C28'], 'bug', [(A, "_quote(cache_id))\n        self",
                                    "cache_id)\n        self")]),
    ('esc-safe', ['C28'], 'bug', [(A, "    text = quote(text)",
                                   "    text = quote(text, safe='/% ')")]),
    ('esc-newline', ['C28'], 'bug', [(A, "    text = quote(text)",
                                      "    text = text.replace('%', '%25')."
                                      "replace(' ', '%20')")]),
    ('esc-hyphen', ['C28'], 'bug', [(A, "text.startswith('-')",
                                     "text == '--'")]),
    ('no-repeat', ['C28'], 'bug', [(A, "elif repeat > 1:",
                                    "elif repeat > 2:")]),
    ('use-cache', ['C28'], 'bug', [(A, "cache_id and use_cache", "cache_id")]),
    ('err-last', ['C28'], 'bug', [(A, ERR, """                elif buf[:3] == b'ERR':
                    break
""")]),
    ('err-swallow', ['C28'], 'bug', [(A, TRY, TRY.replace(
        "        finally:",
        "        except ValueError:\n            response = [b'D ']\n"
        "        finally:"))]),
    ('eof', ['C28'], 'bug', [(A, """            if not byte:
                raise ValueError('The agent closed the connection.')
""", """            if not byte:
                lines.append(buf)
                break
""")]),
    ('open-on-error', ['C28'], 'bug', [(A, TRY, """        self.send('GET_PASSPHRASE {0}'.format(params))
        response = self.get_response()
        self.disconnect()
""")]),
    ('open-value', ['C28'], 'bug', [(A, TRY, TRY.replace(
        "        finally:\n            self.disconnect()\n",
        "        except ValueError:\n            self.disconnect()\n"
        "            raise\n        self.disconnect()\n"))]),
    ('open-connect', ['C28'], 'bug', [(A, CONN, CONN.replace(
        "        except:\n            self.disconnect()\n            raise\n",
        "        except ValueError:\n            self.disconnect()\n"
        "            raise\n"))]),
    ('open-send', ['C28'], 'bug', [(A, TRY, """        self.send('GET_PASSPHRASE {0}'.format(params))
        try:
            response = self.get_response()
        finally:
            self.disconnect()
""")]),
    ('readline', ['C28'], 'same', [(A, "            byte = self._sock.recv(1)",
                                    "            sock = self._sock\n"
                                    "            byte = sock.recv(1)")]),
    ('closing', ['C28'], 'same', [(A, TRY, """        from contextlib import closing
        with closing(self._sock):
            self.send('GET_PASSPHRASE {0}'.format(params))
            response = self.get_response()
""")]),
    ('with-sock', ['C28'], 'same', [(A, TRY, """        with self._sock:
            self.send('GET_PASSPHRASE {0}'.format(params))
            response = self.get_response()
""")]),
    ('except-close', ['C28'], 'same', [(A, TRY, """        try:
            self.send('GET_PASSPHRASE {0}'.format(params))
            response = self.get_response()
        except BaseException:
            self.disconnect()
            raise
        self.disconnect()
""")]),
    ('join', ['C28'], 'same', [(A, """        if prompt:
            params += ' {0}'.format(_quote(prompt))
        else:
            params += ' X'
        if description:
            params += ' {0}'.format(_quote(description))
        else:
            params += ' X'
""", """        for text in (prompt, description):
            params += ' ' + (_quote(text) if text else 'X')
""")]),
    ('confirm-all', ['C28'], 'same', [(G, """            for _i in range(repeat):
""" + CONF + """                    error_message = 'Passwords do not match.'
""", """            others = [getpass('Confirm: ', stream=stream)
                      for _i in range(repeat)]
            if any(x != passphrase for x in others):
                match = False
                error_message = 'Passwords do not match.'
""")]),
    ('recursive', ['C28'], 'same', [(G, "        while not match:\n"
                                     "            match = True",
                                     "        while True:\n"
                                     "            match = True"),
                                    (G, "\n        if use_cache and cache_id:\n"
                                     "            self",
                                     "            if match:\n"
                                     "                break\n\n"
                                     "        if use_cache and cache_id:\n"
                                     "            self")]),
]
