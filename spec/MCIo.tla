-------------------------------- MODULE MCIo --------------------------------
EXTENDS KdbxIo, IOUtils
MCParts == <<4, 4, 4, 1, 4, 3>>
MCRest == 6
MCStep == 5
MCRetry == IOEnv.RETRY = "yes"
MCHeed == IOEnv.HEED = "yes"
=============================================================================
