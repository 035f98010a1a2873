AREAS = {"T": "timestamps", "E": "epochs", "U": "utilities", "F": "finder",
         "G": "generator", "L": "logs", "X": "plot", "C": "freqcd"}
