def cfg(mode, files, frames, part):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Covered Partition Formed PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxFiles = %d\n MaxFrames = %d\n"
            " MaxPart = %d\n" % (mode, files, frames, part))
