"""Thin driver around the real plasTeX pipeline."""
import logging
import os
import sys

import plasTeX
import plasTeX.Compile
import plasTeX.Context
import plasTeX.Filenames
import plasTeX.Renderers
import plasTeX.Renderers.HTML5
import plasTeX.Renderers.XHTML
import plasTeX.Renderers.HTML5.Config as H5Config
import plasTeX.Renderers.PageTemplate
import plasTeX.Imagers
import plasTeX.TeX
from plasTeX.Config import defaultConfig
from plasTeX.TeX import TeX
from plasTeX import TeXDocument

SETTABLE = None


def make_config(opts):
    """opts: {'section.key': value}"""
    config = defaultConfig()
    renderer = opts.get('general.renderer', 'HTML5')
    if renderer == 'HTML5':
        H5Config.addConfig(config)
    # rendering pictures needs external programs: not part of any claimed property
    config['images']['imager'] = 'none'
    config['images']['vector-imager'] = 'none'
    config['images']['enabled'] = False
    for k, v in opts.items():
        sec, key = k.split('.', 1)
        config[sec][key] = v
    return config


def build(texfile, opts, config=None):
    """One full plasTeX run in the current directory."""
    cfg = config or make_config(opts)
    plasTeX.Compile.run(texfile, cfg)


def parse_string(src, opts=None, jobname='job'):
    doc = TeXDocument(config=make_config(opts or {}))
    tex = TeX(doc)
    tex.input(src)
    doc.userdata['jobname'] = jobname
    doc.userdata['working-dir'] = os.getcwd()
    tex.parse()
    return tex
