"""Characters that are easily lost, changed or taken for a line end or a blank.

A bare carriage return is not among them: in a text file it is a line end."""
CHARS = ['\u00a0', '\u200b', '\ufeff', '\u0301', '\u0130', '\u00df', '\ufb01', '\u01c5', '\t', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85',
         '\u2028', '\u2029', '\u3000', '\u00ad', '\u202e', '\ufffd', '\uffff', '\U0001f600', '\U0010ffff', '\x7f', '\x00', '\x1a', '\x1b', '"', "'", '\\', '%', '{', '}', '&', '<', '$', '#', '`', '\u2019', '\u2013', '\u212b', '\u00c5']


def placed(c):
    """The character alone, doubled, at each end and inside"""
    return [c, c + c, c + 'a', 'a' + c, 'a' + c + 'b', 'a ' + c + ' b', ' ' + c, c + ' ']
