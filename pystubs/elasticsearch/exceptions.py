class TransportError(Exception):
    pass


class ConnectionError(TransportError):
    pass


class ConnectionTimeout(TransportError):
    pass


class ApiError(Exception):
    status_code = 500

    def __init__(self, message="", meta=None, body=None):
        super().__init__("%s(%d, %r)" % (type(self).__name__, self.status_code, message))
        self.message, self.meta, self.body = message, meta, body
        self.error = message

    @property
    def status(self):
        return self.status_code


class BadRequestError(ApiError):
    status_code = 400


class NotFoundError(ApiError):
    status_code = 404


class ConflictError(ApiError):
    status_code = 409


class AuthenticationException(ApiError):
    status_code = 401


class AuthorizationException(ApiError):
    status_code = 403


class UnsupportedProductError(ApiError):
    pass


RequestError = BadRequestError
