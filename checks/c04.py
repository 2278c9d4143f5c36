from . import connect
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR of Connection::connect against a reference automaton of the authentication exchange, driven by an arbitrary server (typestate over transport events)'
EXPLANATION = ('Every packet a server can answer with is explored at every point of the authentication exchange, for all authentication methods and options; reaching success, or going on, in any state in which the server has not accepted is a violation, and so is following a second method switch.')

def run(c):
    c.rules.append('connect returns Ok only in the position after an OK that ends the authentication; after any other unexpected reply nothing more is read or sent')
    c.rules.append('a method switch is followed only if none was followed before')
    connect.run(c, 'C04', connect.matrix(key=(False, True)), least=150)
