
#ifndef FCOLLADA_EXPORT_H
#define FCOLLADA_EXPORT_H

#ifdef FCOLLADA_STATIC_DEFINE
#  define FCOLLADA_EXPORT
#  define FCOLLADA_NO_EXPORT
#else
#  ifndef FCOLLADA_EXPORT
#    ifdef FCollada_EXPORTS
        /* We are building this library */
#      define FCOLLADA_EXPORT 
#    else
        /* We are using this library */
#      define FCOLLADA_EXPORT 
#    endif
#  endif

#  ifndef FCOLLADA_NO_EXPORT
#    define FCOLLADA_NO_EXPORT 
#  endif
#endif

#ifndef FCOLLADA_DEPRECATED
#  define FCOLLADA_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef FCOLLADA_DEPRECATED_EXPORT
#  define FCOLLADA_DEPRECATED_EXPORT FCOLLADA_EXPORT FCOLLADA_DEPRECATED
#endif

#ifndef FCOLLADA_DEPRECATED_NO_EXPORT
#  define FCOLLADA_DEPRECATED_NO_EXPORT FCOLLADA_NO_EXPORT FCOLLADA_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef FCOLLADA_NO_DEPRECATED
#    define FCOLLADA_NO_DEPRECATED
#  endif
#endif

#endif /* FCOLLADA_EXPORT_H */
