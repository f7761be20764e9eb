"""Which functions decide which property, with the number of obligations counted on the original tree."""
import apichecks as a
import geomchecks as g
import treechecks as t

CHECKS = {
    'C01': {'run': [t.decide], 'floor': 400},
    'C02': {'run': [t.decide], 'floor': 30},
    'C03': {'run': [t.decide], 'floor': 400},
    'C04': {'run': [t.decide], 'floor': 3000},
    'C05': {'run': [t.decide], 'floor': 1500},
    'C06': {'run': [t.decide], 'floor': 2000},
    'C07': {'run': [t.decide], 'floor': 1000},
    'C08': {'run': [t.decide], 'floor': 150},
    'C09': {'run': [t.decide], 'floor': 1200},
    'C10': {'run': [t.decide], 'floor': 150},
    'C11': {'run': [t.decide], 'floor': 12000},
    'C12': {'run': [t.decide], 'floor': 700},
    'C13': {'run': [t.decide], 'floor': 3000},
    'C14': {'run': [g.c14, t.decide], 'floor': 700},
    'C15': {'run': [g.c15], 'floor': 200},
    'C16': {'run': [g.c16], 'floor': 140},
    'C17': {'run': [g.c17], 'floor': 30},
    'C18': {'run': [g.c18], 'floor': 8},
    'C19': {'run': [g.c19], 'floor': 60},
    'C20': {'run': [g.c20], 'floor': 40},
    'C21': {'run': [g.c21], 'floor': 100},
    'C23': {'run': [t.decide], 'floor': 8000},
    'C24': {'run': [a.c24], 'floor': 300, 'facts': True},
    'C25': {'run': [a.c25], 'floor': 60, 'facts': True},
    'C26': {'run': [t.decide], 'floor': 20000},
    'C29': {'run': [t.decide], 'floor': 400},
    'C30': {'run': [t.decide], 'floor': 200},
    'C22': {'run': [g.c22], 'floor': 500},
}
