"""The real lxml, kept for the model of it in symx/models."""
import sys

import cssselect as _css
from lxml import cssselect, etree

MEMBERS = set(dir(etree.ElementBase)) | set(dir(etree.PIBase))


def parse_css(text):
    return _css.parse(text)


def gap(what):
    from .api import Gap
    raise Gap('outside the model of lxml: ' + what)


def substitute():
    """Makes further imports of lxml find the model."""
    for k in list(sys.modules):
        if k == 'lxml' or k.startswith('lxml.'):
            del sys.modules[k]
